"""Behaviour-preserving rewrites on which the checks have to stay quiet."""

REFACTORINGS = []


def rewrite(id, checks, *edits):
    REFACTORINGS.append(dict(id=id, checks=checks.split(), edits=edits))


rewrite("r01_radius", "C04 C01", ("adjust_radius.py", """    if rho >= options.rho_increase and is_large_step:
        new_radius = radius * options.expansion_factor
    elif rho >= options.rho_decrease or n_evals_is_increased:
        new_radius = radius
    else:
        new_radius = radius * options.shrinking_factor

    if np.isfinite(options.max_radius_to_step_ratio):
        max_radius = np.min(
            [options.max_radius, step_length * options.max_radius_to_step_ratio]
        )
    else:
        max_radius = options.max_radius

    # the minimum radius takes precedence, also after very short or rejected steps
    max_radius = max(max_radius, options.min_radius)

    new_radius = np.clip(new_radius, options.min_radius, max_radius)

    return new_radius
""", """    new_radius = radius * _get_factor(rho, is_large_step, n_evals_is_increased, options)
    return float(
        np.maximum(
            np.minimum(new_radius, _get_max_radius(step_length, options)),
            options.min_radius,
        )
    )


def _get_max_radius(step_length, options):
    out = options.max_radius
    ratio = options.max_radius_to_step_ratio
    if np.isfinite(ratio):
        out = min(out, step_length * ratio)
    return max(options.min_radius, out)


def _get_factor(rho, is_large_step, n_evals_is_increased, options):
    if rho >= options.rho_increase:
        if is_large_step:
            return options.expansion_factor
    if rho >= options.rho_decrease:
        return 1.0
    if n_evals_is_increased:
        return 1.0
    return options.shrinking_factor
"""))

rewrite("r02_rho", "C03 C02", ("acceptance_decision.py", """    if expected_improvement == 0 and actual_improvement > 0:
        rho = np.inf
    elif expected_improvement == 0:
        rho = -np.inf
    else:
        rho = actual_improvement / expected_improvement
    return rho
""", """    if expected_improvement != 0:
        return actual_improvement / expected_improvement
    return np.inf if actual_improvement > 0 else -np.inf
"""))

rewrite("r03_history", "C05 C21 C11", ("history.py", """        x_indices = np.arange(self.n_xs, self.n_xs + n_new_points)

        for x_index in x_indices:
            self.index_mapper[x_index] = []

        self.n_xs += n_new_points

        if is_single:
            x_indices = x_indices[0]

        return x_indices
""", """        first_new = self.n_xs
        self.n_xs = first_new + n_new_points
        new_indices = np.arange(first_new, self.n_xs)
        self.index_mapper.update({new_index: [] for new_index in new_indices})

        return new_indices[0] if is_single else new_indices
"""), ("history.py", """        for x_index, f_index in zip(x_indices, f_indices):
            self.index_mapper[x_index].append(f_index)

        self.n_fun += n_new_points
""", """        for position in range(n_new_points):
            self.index_mapper[x_indices[position]].append(f_indices[position])

        self.n_fun = self.n_fun + n_new_points
"""), ("history.py", """    indices = np.arange(n_xs)[x_indices].tolist()

    out = {i: arr[mapper[i]] for i in indices}

    if is_single:
        out = out[x_indices[0]]

    return out""", """    selected = np.arange(n_xs)[x_indices].tolist()

    out = {}
    for i in selected:
        out[i] = arr[mapper[i]]

    return out[x_indices[0]] if is_single else out"""))

rewrite("r04_accept_simple", "C02 C03", ("acceptance_decision.py", """    is_accepted = actual_improvement >= min_improvement

    if np.isfinite(candidate_fval):
        res = _get_acceptance_result(
            candidate_x=candidate_x,
            candidate_fval=candidate_fval,
            candidate_index=candidate_index,
            rho=rho,
            is_accepted=is_accepted,
            old_state=state,
            n_evals=n_evals,
        )
    else:
        res = _get_acceptance_result(
            candidate_x=state.x,
            candidate_fval=state.fval,
            candidate_index=state.index,
            rho=-np.inf,
            is_accepted=False,
            old_state=state,
            n_evals=n_evals,
        )

    return res


def accept_noisy(""", """    return _finish(
        candidate_x,
        candidate_fval,
        candidate_index,
        rho,
        actual_improvement,
        state,
        n_evals,
        min_improvement,
    )


def _finish(x, fval, index, rho, improvement, state, n_evals, min_improvement):
    is_usable = np.isfinite(fval)
    if not is_usable:
        x, fval, index, rho = state.x, state.fval, state.index, -np.inf
    return _get_acceptance_result(
        candidate_x=x,
        candidate_fval=fval,
        candidate_index=index,
        rho=rho,
        is_accepted=improvement >= min_improvement if is_usable else False,
        old_state=state,
        n_evals=n_evals,
    )


def accept_noisy("""), ("acceptance_decision.py", """    x = candidate_x if is_accepted else old_state.x
    fval = candidate_fval if is_accepted else old_state.fval
    index = candidate_index if is_accepted else old_state.index
    step_length""", """    if is_accepted:
        x, fval, index = candidate_x, candidate_fval, candidate_index
    else:
        index, fval, x = old_state.index, old_state.fval, old_state.x
    step_length"""))

rewrite("r05_main_loop", "C01 C02 C03 C04 C07 C18 C21", ("tranquilo.py", """        vector_model = fit_model(
            *model_data,
            region=state.trustregion,
            old_model=state.vector_model,
            weights=None,
        )

        scalar_model = aggregate_model(
            vector_model=vector_model,
        )

        sub_sol = solve_subproblem(model=scalar_model, trustregion=state.trustregion)

        _relative_step_length = (
            np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius
        )

        # ==""", """        vector_model, scalar_model, sub_sol, _relative_step_length = _fit_and_solve(
            model_data, state, fit_model, aggregate_model, solve_subproblem
        )

        # =="""), ("tranquilo.py", """                vector_model = fit_model(
                    *model_data,
                    region=state.trustregion,
                    old_model=state.vector_model,
                    weights=None,
                )

                scalar_model = aggregate_model(
                    vector_model=vector_model,
                )

                sub_sol = solve_subproblem(
                    model=scalar_model, trustregion=state.trustregion
                )

                _relative_step_length = (
                    np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius
                )
""", """                (
                    vector_model,
                    scalar_model,
                    sub_sol,
                    _relative_step_length,
                ) = _fit_and_solve(
                    model_data, state, fit_model, aggregate_model, solve_subproblem
                )
"""), ("tranquilo.py", """def _is_converged(states""", """def _fit_and_solve(model_data, state, fit_model, aggregate_model, solve_subproblem):
    vector_model = fit_model(
        *model_data,
        region=state.trustregion,
        old_model=state.vector_model,
        weights=None,
    )
    scalar_model = aggregate_model(vector_model=vector_model)
    sub_sol = solve_subproblem(model=scalar_model, trustregion=state.trustregion)
    step = np.linalg.norm(sub_sol.x - state.x)
    return vector_model, scalar_model, sub_sol, step / state.trustregion.radius


def _is_converged(states"""))

rewrite("r06_filter", "C14", ("filter_points.py", """        while n_dropped < n_to_drop and (dists > state.trustregion.radius).any():
            drop_index = np.argmax(dists)
            xs = np.delete(xs, drop_index, axis=0)
            indices = np.delete(indices, drop_index)
            dists = np.delete(dists, drop_index, axis=0)
            n_dropped += 1
""", """        while n_dropped < n_to_drop:
            furthest = np.argmax(dists)
            if not dists[furthest] > state.trustregion.radius:
                break
            dists, indices = np.delete(dists, furthest), np.delete(indices, furthest)
            xs = np.delete(xs, furthest, axis=0)
            n_dropped += 1
"""), ("filter_points.py", """            if indices[i] == state.index:
                drop_index = j
            elif indices[j] == state.index:
                drop_index = i
            else:
                drop_index = i if dists[i] < dists[j] else j
""", """            drop_index = j
            if indices[i] != state.index:
                if indices[j] == state.index or dists[i] < dists[j]:
                    drop_index = i
"""))

rewrite("r07_cluster", "C15", ("clustering.py", """                n_neighbors = 0
                for j in range(n_points):
                    if labels[j] < 0 and j != i and dists[i, j] <= epsilon:
                        n_neighbors += 1
                if n_neighbors == 0:""", """                n_neighbors = _count_neighbors(dists, labels, i, epsilon)
                if n_neighbors == 0:"""), ("clustering.py", """@njit
def _cluster(""", """@njit
def _count_neighbors(dists, labels, point, epsilon):
    counter = 0
    for other in range(len(dists)):
        if other == point:
            continue
        if labels[other] < 0 and dists[point, other] <= epsilon:
            counter += 1
    return counter


@njit
def _cluster("""))

rewrite("r08_binding", "C08 C01 C09", ("region.py", """        lower_binding, upper_binding = False, False
        if bounds.lower is not None:
            lower_binding = np.min(center - bounds.lower) <= radius
        if bounds.upper is not None:
            upper_binding = np.min(bounds.upper - center) <= radius
        out = np.any(lower_binding) or np.any(upper_binding)
    return out
""", """        if bounds.lower is not None:
            out = bool(np.any(center - bounds.lower <= radius))
        if bounds.upper is not None and not out:
            out = bool((bounds.upper - center <= radius).any())
    return out
"""), ("region.py", """    lower_bounds = center - radius
    upper_bounds = center + radius

    if bounds is not None and bounds.lower is not None:
        lower_bounds = np.clip(lower_bounds, bounds.lower, np.inf)

    if bounds is not None and bounds.upper is not None:
        upper_bounds = np.clip(upper_bounds, -np.inf, bounds.upper)
""", """    lower_bounds, upper_bounds = center - radius, center + radius

    if bounds is not None:
        if bounds.upper is not None:
            upper_bounds = np.minimum(upper_bounds, bounds.upper)
        if bounds.lower is not None:
            lower_bounds = np.maximum(bounds.lower, lower_bounds)
"""))

rewrite("r09_move_model", "C10 C12", ("models.py", """    new_c = model.predict(shift)

    new_g = model.linear_terms

    if model.square_terms is not None:
        new_g = new_g + shift @ model.square_terms

    out = model._replace(
        intercepts=new_c,
        linear_terms=new_g,
        shift=model.shift + shift,
    )
    return out
""", """    gradient = model.linear_terms
    if model.square_terms is not None:
        gradient = gradient + np.sum(model.square_terms * shift, axis=2)
    return replace(
        model,
        shift=shift + model.shift,
        linear_terms=gradient,
        intercepts=model.predict(shift),
    )
"""), ("models.py", """    # undo old scaling
    out = _scale_model(model, factor=1 / model.scale)

    # shift the center
    shift = new_region.effective_center - model.shift
    if isinstance(model, ScalarModel):
        out = _shift_scalar_model(out, shift=shift)
    else:
        out = _shift_vector_model(out, shift=shift)

    # apply new scaling
    new_scale = new_region.effective_radius
    out = _scale_model(out, factor=new_scale)
    return out
""", """    shift = new_region.effective_center - model.shift
    func = (
        _shift_scalar_model if isinstance(model, ScalarModel) else _shift_vector_model
    )
    unscaled = _scale_model(model, factor=1 / model.scale)
    shifted = func(unscaled, shift=shift)
    return _scale_model(shifted, factor=new_region.effective_radius)
"""), ("models.py", """    new_g = model.linear_terms * factor
    new_h = None
    if model.square_terms is not None:
        # the factor differs across parameters if the region is not a regular cube
        new_h = model.square_terms * factor * np.reshape(factor, (-1, 1))
""", """    new_h = model.square_terms
    if new_h is not None:
        # the factor differs across parameters if the region is not a regular cube
        new_h = np.reshape(factor, (-1, 1)) * new_h * factor
    new_g = factor * model.linear_terms
"""))

rewrite("r10_clip_relative", "C17 C12", ("handle_infinity.py", """    _diff = _maxs - _mins
""", """    _diff = np.subtract(_maxs, _mins)
"""), ("handle_infinity.py", """    _signs = np.where(_diff < 0, -1.0, 1.0)
    _diff *= _signs
    _maxs *= _signs
    _mins *= _signs

    _pos_penalty = _maxs + 2 * _diff + 1
    _neg_penalty = _mins - 2 * _diff - 1

    out = np.nan_to_num(
        fvecs, nan=_pos_penalty, posinf=_pos_penalty, neginf=_neg_penalty
    )

    return out
""", """    _is_negative = _diff < 0
    _maxs = np.where(_is_negative, -_maxs, _maxs)
    _mins = np.where(_is_negative, -_mins, _mins)
    _diff = np.abs(_diff)

    upper = _maxs + 2 * _diff + 1
    lower = _mins - 2 * _diff - 1

    out = np.where(np.isfinite(fvecs), fvecs, upper)
    out = np.where(np.isneginf(fvecs), lower, out)
    return out
"""))

rewrite("r11_estimate_variance", "C24 C21", ("estimate_variance.py", """    n_evals = {idx: len(history.get_fvals(idx)) for idx in all_indices}

    # make sure we keep at least one sample from which we can estimate a variance
    cutoff = min(max(n_evals.values()), min_n_evals)

    valid_indices = [idx for idx in all_indices if n_evals[idx] >= cutoff]
    weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
    weights = weights / weights.sum()
""", """    n_evals = {}
    for idx in all_indices:
        n_evals[idx] = len(history.get_fvals(idx))

    # make sure we keep at least one sample from which we can estimate a variance
    most = max(n_evals.values())
    cutoff = most if most < min_n_evals else min_n_evals

    valid_indices = []
    counts = []
    for idx, n_ in n_evals.items():
        if n_ >= cutoff:
            valid_indices.append(idx)
            counts.append(n_)
    weights = np.array(counts) / np.sum(counts)
"""))

rewrite("r12_rho_noise", "C25 C21", ("rho_noise.py", """    rhos = []
    for draw in noise:
        sim_fvecs = true_fvecs + draw
        sim_vector_model = model_fitter(
            xs,
            sim_fvecs,
            weights=None,
            region=trustregion,
            old_model=old_vector_model,
        )
        sim_scalar_model = model_aggregator(vector_model=sim_vector_model)
        sim_sub_sol = subsolver(sim_scalar_model, trustregion)

        sim_candidate_fval = true_scalar_model.predict(sim_sub_sol.x_unit)
        sim_actual_improvement = -(sim_candidate_fval - true_current_fval)

        sim_rho = calculate_rho(
            actual_improvement=sim_actual_improvement,
            expected_improvement=sim_sub_sol.expected_improvement,
        )

        rhos.append(sim_rho)

    return np.array(rhos)
""", """    def _simulate(draw):
        sim_vector_model = model_fitter(
            xs,
            true_fvecs + draw,
            region=trustregion,
            old_model=old_vector_model,
            weights=None,
        )
        sim_sub_sol = subsolver(
            model_aggregator(vector_model=sim_vector_model), trustregion
        )
        new_fval = true_scalar_model.predict(sim_sub_sol.x_unit)
        return calculate_rho(
            actual_improvement=true_current_fval - new_fval,
            expected_improvement=sim_sub_sol.expected_improvement,
        )

    return np.array([_simulate(draw) for draw in noise])
"""))

rewrite("r13_adjust_n_evals", "C16 C07", ("adjust_n_evals.py", """    if (rho_noise > options.high_rho).mean() > options.min_share_high_rho:
        new_n_evals = max(n_evals - 1, options.min_n_evals)
    # most rhos are above rho low -> keep constant
    elif (
        rho_noise > options.low_rho
    ).mean() > options.min_share_low_rho or rho >= options.good_rho_threshold:
        new_n_evals = n_evals
    # many rhos are below rho low -> increase
    else:
        new_n_evals = min(n_evals + 1, options.max_n_evals)

    is_increased = new_n_evals > n_evals
    return new_n_evals, is_increased
""", """    share_high = np.mean(rho_noise > options.high_rho)
    share_low = np.mean(rho_noise > options.low_rho)
    if share_high > options.min_share_high_rho:
        new_n_evals = max(options.min_n_evals, n_evals - 1)
        return new_n_evals, new_n_evals > n_evals
    is_constant = share_low > options.min_share_low_rho
    if is_constant or rho >= options.good_rho_threshold:
        return n_evals, False
    new_n_evals = min(options.max_n_evals, n_evals + 1)
    return new_n_evals, new_n_evals > n_evals
"""), ("adjust_n_evals.py", "def adjust_n_evals(", "import numpy as np\n\n\ndef adjust_n_evals("))

rewrite("r14_sample_points", "C13 C01", ("sample_points.py", """    n_params = len(trustregion.center)
    raw = rng.normal(size=(n_points, n_params))
    norm = np.linalg.norm(raw, axis=1, ord=2)
    scale = gammainc(n_params / 2, norm**2 / 2) ** (1 / n_params) / norm
    points = raw * scale.reshape(-1, 1)
    out = trustregion.map_from_unit(points)
    return out
""", """    n_params = len(trustregion.center)
    normal_draws = rng.normal(size=(n_points, n_params))
    length = np.linalg.norm(normal_draws, axis=1)
    new_length = gammainc(n_params / 2, length**2 / 2) ** (1 / n_params)
    directions = normal_draws / length[:, np.newaxis]
    return trustregion.map_from_unit(directions * new_length[:, np.newaxis])
"""), ("sample_points.py", """    order = 2 if trustregion_shape == "sphere" else np.inf
    norm = np.linalg.norm(x, axis=1, ord=order).reshape(-1, 1)
    projected = x / norm
    return projected
""", """    if trustregion_shape == "sphere":
        norm = np.linalg.norm(x, axis=1)
    else:
        norm = np.max(np.abs(x), axis=1)
    return x / norm.reshape(-1, 1)
"""))

rewrite("r15_wrap_criterion", "C06 C07 C05", ("wrap_criterion.py", """        raw_evals_with_replaced_traceback = [
            failed_eval if isinstance(x, str) else x for x in raw_evals
        ]
        # replace NaNs but keep infinite values. NaNs would be problematic in many
        # places, infs are only a problem in model fitting and will be handled there
        clipped_evals = [
            np.nan_to_num(critval, nan=np.inf, posinf=np.inf, neginf=-np.inf)
            for critval in raw_evals_with_replaced_traceback
        ]

        history.add_evals(
            x_indices=np.repeat(x_indices, repetitions),
            evals=clipped_evals,
        )
""", """        # replace NaNs but keep infinite values. NaNs would be problematic in many
        # places, infs are only a problem in model fitting and will be handled there
        evals = []
        for raw in raw_evals:
            if isinstance(raw, str):
                raw = failed_eval
            evals.append(np.where(np.isnan(raw), np.inf, raw))

        all_indices = []
        for idx, n_reps in eval_info.items():
            all_indices.extend([idx] * n_reps)

        history.add_evals(all_indices, evals)
"""))

rewrite("r16_get_component", "C19 C21", ("get_component.py", """    _valid_options = {k: v for k, v in _options.items() if k in signature}
    _redundant_options = {k: v for k, v in _options.items() if k not in signature}
""", """    _valid_options, _redundant_options = {}, {}
    for name_, value in _options.items():
        target = _valid_options if name_ in signature else _redundant_options
        target[name_] = value
"""), ("get_component.py", """        _kwargs = {**dict(zip(signature[: len(args)], args)), **kwargs}
        _redundant = {k: v for k, v in _kwargs.items() if k not in signature}
        _valid = {k: v for k, v in _kwargs.items() if k in signature}
""", """        _kwargs = dict(zip(signature, args))
        _kwargs.update(kwargs)
        _valid = {k: _kwargs[k] for k in _kwargs if k in signature}
        _redundant = {k: _kwargs[k] for k in _kwargs if k not in _valid}
"""))

rewrite("r17_fit_models", "C12 C10 C11", ("fit_models.py", """    intercepts, linear_terms, square_terms = np.split(coef, (1, n_params + 1), axis=1)
    intercepts = intercepts.flatten()
""", """    intercepts = coef[:, 0]
    linear_terms = coef[:, 1 : n_params + 1]
    square_terms = coef[:, n_params + 1 :]
"""), ("fit_models.py", """    raw = x if model_type == "linear" else _quadratic_features(x)
    intercept = np.ones((len(x), 1))
    features = np.concatenate((intercept, raw), axis=1)

    return features
""", """    features = [np.ones((len(x), 1))]
    if model_type == "linear":
        features.append(x)
    else:
        features.append(_quadratic_features(x))
    return np.hstack(features)
"""), ("fit_models.py", """    idx = 0
    for i in range(n_params):
        j_start = i
        for j in range(j_start, n_params):
            poly_terms[idx] = xt[i] * xt[j]
            idx += 1
""", """    row = 0
    for i in range(n_params):
        for j in range(i, n_params):
            for s in range(n_samples):
                poly_terms[row, s] = x[s, i] * x[s, j]
            row += 1
"""), ("fit_models.py", """    idx1, idx2 = np.triu_indices(n_params)
    hess = np.zeros((n_residuals, n_params, n_params), dtype=np.float64)
    hess[:, idx1, idx2] = square_terms
    hess = hess + np.triu(hess).transpose(0, 2, 1)

    return hess
""", """    rows, cols = np.triu_indices(n_params)
    upper = np.zeros((n_residuals, n_params, n_params))
    upper[:, rows, cols] = square_terms
    return upper + np.transpose(upper, (0, 2, 1))
"""))

rewrite("r18_volume", "C20 C08", ("volume.py", """    log_radius = (
        np.log(np.pi) / 2
        + np.log(sphere_radius)
        - np.log(2)
        - loggamma(dim / 2 + 1) / dim
    )
    if scaling_factor is not None:
        log_radius += np.log(scaling_factor) / dim
    out = np.exp(log_radius)
    return out
""", """    log_const = 0.5 * np.log(np.pi) - np.log(2) - loggamma(1 + dim / 2) / dim
    if scaling_factor is not None:
        log_const = log_const + np.log(scaling_factor) / dim
    return np.exp(log_const + np.log(sphere_radius))
"""), ("volume.py", """    vol = np.pi ** (dim / 2) * radius**dim / gamma(dim / 2 + 1)
    return vol
""", """    unit_volume = np.pi ** (dim / 2) / gamma(dim / 2 + 1)
    return unit_volume * radius**dim
"""), ("volume.py", """    vol = (radius * 2) ** dim
    return vol
""", """    side_length = 2 * radius
    return side_length**dim
"""))

rewrite("r19_converged", "C18 C01", ("tranquilo.py", """    converged = True
    if g_norm_rel <= options.gtol_rel:
        msg = "Relative gradient norm smaller than tolerance."
    elif g_norm_abs <= options.gtol_abs:
        msg = "Absolute gradient norm smaller than tolerance."
    elif f_change_rel <= options.ftol_rel:
        msg = "Relative criterion change smaller than tolerance."
    elif f_change_abs <= options.ftol_abs:
        msg = "Absolute criterion change smaller than tolerance."
    elif x_change_rel <= options.xtol_rel:
        msg = "Relative params change smaller than tolerance."
    elif x_change_abs <= options.xtol_abs:
        msg = "Absolute params change smaller than tolerance."
    else:
        converged = False
        msg = None

    return converged, msg
""", """    criteria = [
        ("Relative gradient norm", g_norm_rel, options.gtol_rel),
        ("Absolute gradient norm", g_norm_abs, options.gtol_abs),
        ("Relative criterion change", f_change_rel, options.ftol_rel),
        ("Absolute criterion change", f_change_abs, options.ftol_abs),
        ("Relative params change", x_change_rel, options.xtol_rel),
        ("Absolute params change", x_change_abs, options.xtol_abs),
    ]
    for name, value, tolerance in criteria:
        if value <= tolerance:
            return True, f"{name} smaller than tolerance."
    return False, None
"""))

rewrite("r20_sample_size", "C16 C07", ("acceptance_sample_size.py", """    n1_optimal = (sd_1 * (sd_2 + sd_1)) * factor
    n2_optimal = (sd_2 * (sd_2 + sd_1)) * factor

    if existing_n1 <= n1_optimal:
        n1 = n1_optimal - existing_n1
        n2 = n2_optimal
    else:
        n1 = 0
        n2 = sd_2**2 * (factor ** (-1) - sd_1**2 / existing_n1) ** (-1)

    return n1, n2
""", """    sd_sum = sd_1 + sd_2
    n1_optimal = sd_1 * sd_sum * factor

    if existing_n1 > n1_optimal:
        return 0, sd_2**2 / (1 / factor - sd_1**2 / existing_n1)

    return n1_optimal - existing_n1, sd_2 * sd_sum * factor
"""), ("acceptance_sample_size.py", """    n1 = int(np.ceil(np.clip(n1_raw, 0, max(0, n_max - existing_n1))))
    n2 = int(np.ceil(np.clip(n2_raw, n_min, n_max)))
    return n1, n2
""", """    n1_max = max(0, n_max - existing_n1)
    n1 = int(np.ceil(min(max(n1_raw, 0), n1_max)))
    n2 = int(np.ceil(min(max(n2_raw, n_min), n_max)))
    return n1, n2
"""))

rewrite("r21_solve_template", "C09 C22 C01 C02", ("solve_subproblem.py", """    fval_old = model.predict(old_x_unit)
    fval_candidate = model.predict(raw_result["x"])
    expected_improvement = -(fval_candidate - fval_old)

    # in case of negative expected improvement, we return the old point
    if expected_improvement >= 0:
        success = raw_result["success"]
        x_unit = raw_result["x"]
        x = trustregion.map_from_unit(raw_result["x"])
    else:
        success = False
        x_unit = old_x_unit
        x = trustregion.center
        expected_improvement = 0.0
""", """    expected_improvement = model.predict(old_x_unit) - model.predict(raw_result["x"])

    # in case of negative expected improvement, we return the old point
    is_improvement = expected_improvement >= 0
    success = raw_result["success"] if is_improvement else False
    if not is_improvement:
        expected_improvement = 0.0
        x_unit, x = old_x_unit, trustregion.center
    else:
        x_unit = raw_result["x"]
        x = trustregion.map_from_unit(x_unit)
"""))

rewrite("r22_aggregate", "C11", ("aggregate_models.py", """    intercept = vm_intercepts @ vm_intercepts
    linear_terms = 2 * np.sum(vm_linear_terms * vm_intercepts.reshape(-1, 1), axis=0)
    square_terms = 2 * vm_linear_terms.T @ vm_linear_terms
""", """    intercept = np.sum(vm_intercepts**2)
    linear_terms = 2 * (vm_intercepts @ vm_linear_terms)
    square_terms = 2 * (vm_linear_terms.T @ vm_linear_terms)
"""))

rewrite("r23_poisedness", "C26", ("poisedness.py", """        if critval > lambda_:
            lambda_ = critval
            argmax = result_max.x
            idx_max = idx

    return lambda_, argmax, idx_max
""", """        if not critval > lambda_:
            continue
        lambda_, argmax, idx_max = critval, result_max.x, idx

    return lambda_, argmax, idx_max
"""))

rewrite("r24_line_search", "C02 C03 C01 C07", ("acceptance_decision.py", """    if line_search_xs is not None and speculative_xs is not None:
        new_xs = np.vstack([line_search_xs, speculative_xs])
    elif line_search_xs is not None:
        new_xs = line_search_xs
    elif speculative_xs is not None:
        new_xs = speculative_xs
""", """    samples = [xs for xs in (line_search_xs, speculative_xs) if xs is not None]
    new_xs = np.vstack(samples)
"""), ("acceptance_decision.py", """    new_fvals = history.get_fvals(new_indices)
    new_fvals = pd.Series({i: np.mean(fvals) for i, fvals in new_fvals.items()})
    new_fval_argmin = new_fvals.idxmin()

    found_better_candidate = new_fvals.loc[new_fval_argmin] < candidate_fval

    # If a better point was found, update the candidates
    if found_better_candidate:
        candidate_x = history.get_xs(new_fval_argmin)
        candidate_fval = new_fvals.loc[new_fval_argmin]
        candidate_index = new_fval_argmin
""", """    means = {i: np.mean(v) for i, v in history.get_fvals(new_indices).items()}
    best_index = min(means, key=means.get)

    # If a better point was found, update the candidates
    if means[best_index] < candidate_fval:
        candidate_index = best_index
        candidate_fval = means[best_index]
        candidate_x = history.get_xs(best_index)
"""))

rewrite("r25_geometry", "C13 C26", ("geometry.py", """    points = trustregion.map_to_unit(sample)
    n_samples, n_params = points.shape
    xtx = points.T @ points
    det = np.linalg.det(xtx / n_samples)
    out = n_params * np.log(n_samples) + np.log(det)
""", """    unit = trustregion.map_to_unit(sample)
    n_samples, n_params = unit.shape
    det = np.linalg.det(unit.T @ unit / n_samples)
    out = np.log(det) + np.log(n_samples) * n_params
"""))

rewrite("r26_cg", "C22 C23", ("subsolvers/_conjugate_gradient_fast.py", """        square_terms = direction.T @ model_hessian @ direction

        distance_to_boundary = _get_distance_to_trustregion_boundary(
            x_candidate, direction, trustregion_radius
        )

        # avoid divide by zero warning
        if square_terms > 0:
            step_size = (residual @ residual) / square_terms
        else:
            step_size = np.inf

        if square_terms <= 0 or step_size > distance_to_boundary:
            x_candidate = x_candidate + distance_to_boundary * direction
            break
""", """        max_step = _get_distance_to_trustregion_boundary(
            x_candidate, direction, trustregion_radius
        )

        curvature = direction @ (model_hessian @ direction)
        if curvature <= 0:
            x_candidate = x_candidate + max_step * direction
            break

        step_size = (residual @ residual) / curvature
        if step_size > max_step:
            x_candidate = x_candidate + max_step * direction
            break
"""), ("subsolvers/_conjugate_gradient_fast.py", """    cc = 0
    cd = 0
    dd = 0
    for i in range(len(direction)):
        cc += candidate[i] ** 2
        dd += direction[i] ** 2
        cd += candidate[i] * direction[i]
    sigma = -cd + np.sqrt(cd * cd + dd * (radius**2 - cc))
    sigma = sigma / dd

    return sigma
""", """    cc = candidate @ candidate
    cd = candidate @ direction
    dd = direction @ direction
    root = np.sqrt(cd**2 + dd * (radius * radius - cc))
    return (root - cd) / dd
"""))

rewrite("r27_bntr", "C22 C23", ("subsolvers/bntr_fast.py", """            x_unbounded = x_candidate + conjugate_gradient_step
            x_candidate = _apply_bounds_to_x_candidate(
                x_unbounded, lower_bounds, upper_bounds
            )

            predicted_reduction""", """            new_x = x_candidate + conjugate_gradient_step
            x_candidate = np.minimum(np.maximum(new_x, lower_bounds), upper_bounds)

            predicted_reduction"""), ("subsolvers/bntr_fast.py", """        x_old = x_candidate
        f_old = f_candidate
        accept_step = False

        while not accept_step and not converged:""", """        accept_step = False
        f_old = f_candidate
        x_old = x_candidate

        while not (accept_step or converged):"""), ("subsolvers/bntr_fast.py", """    for i in range(len(x)):
        if (x[i] <= lower_bounds[i]) & (gradient_unprojected[i] > 0):
            active_lower[i] = True
            inactive[i] = False
        elif (x[i] >= upper_bounds[i]) & (gradient_unprojected[i] < 0):
            active_upper[i] = True
            inactive[i] = False
        elif lower_bounds[i] == upper_bounds[i]:
            active_fixed[i] = True
            inactive[i] = False
""", """    for j in range(len(x)):
        at_lower = x[j] <= lower_bounds[j] and gradient_unprojected[j] > 0
        at_upper = x[j] >= upper_bounds[j] and gradient_unprojected[j] < 0
        if at_lower:
            active_lower[j] = True
        elif at_upper:
            active_upper[j] = True
        elif lower_bounds[j] == upper_bounds[j]:
            active_fixed[j] = True
        inactive[j] = not (active_lower[j] or active_upper[j] or active_fixed[j])
"""))

rewrite("r28_trsbox", "C22 C23", ("subsolvers/_trsbox_fast.py", """    x_candidate_new = np.zeros(len(x_candidate))

    for i in range(len(x_candidate)):
        if x_candidate[i] <= lower_bounds[i]:
            x_candidate_new[i] = lower_bounds[i]
        elif x_candidate[i] >= upper_bounds[i]:
            x_candidate_new[i] = upper_bounds[i]
        else:
            x_candidate_new[i] = x_candidate[i]
""", """    x_candidate_new = np.minimum(np.maximum(x_candidate, lower_bounds), upper_bounds)
"""), ("subsolvers/_trsbox_fast.py", """        if gradient_projected[i] != 0:
            if gradient_projected[i] > 0:
                step_len_constr = (
                    upper_bounds[i] - x_candidate[i]
                ) / gradient_projected[i]
            else:
                step_len_constr = (
                    lower_bounds[i] - x_candidate[i]
                ) / gradient_projected[i]

            if step_len_constr < step_len:
                step_len = step_len_constr
                index_bound_active = i
""", """        slope = gradient_projected[i]
        if slope == 0:
            continue
        bound = upper_bounds[i] if slope > 0 else lower_bounds[i]
        max_step = (bound - x_candidate[i]) / slope
        if max_step < step_len:
            step_len = max_step
            index_bound_active = i
"""))

rewrite("r29_stcg", "C22 C23", ("subsolvers/_steihaug_toint_fast.py", """    step = (np.sqrt(dp * dp + norm_p * (radius_sq - norm_d)) - dp) / norm_p
    x_candidate = x_candidate + step * p

    return x_candidate
""", """    discriminant = dp**2 + norm_p * (radius_sq - norm_d)
    return x_candidate + (np.sqrt(discriminant) - dp) / norm_p * p
"""), ("subsolvers/_steihaug_toint_fast.py", """        x_candidate = x_candidate + alpha * p
        residual = residual - alpha * (model_hessian @ p)

        norm_d = x_candidate @ x_candidate

        rzm1 = rz
        rz = residual @ residual

        norm_r = np.linalg.norm(residual)
""", """        rzm1 = rz
        residual = residual - alpha * (model_hessian @ p)
        norm_r = np.linalg.norm(residual)
        rz = residual @ residual

        x_candidate = x_candidate + alpha * p
        norm_d = x_candidate @ x_candidate
"""))

rewrite("r30_linear", "C22", ("subsolvers/linear_subsolvers.py", """    if lagrange_polynomial(x_candidate_min) >= lagrange_polynomial(x_candidate_max):
        x_lagrange = x_candidate_min + x_center
    else:
        x_lagrange = x_candidate_max + x_center

    return x_lagrange
""", """    is_min_better = lagrange_polynomial(x_candidate_min) >= lagrange_polynomial(
        x_candidate_max
    )
    return x_center + (x_candidate_min if is_min_better else x_candidate_max)
"""))

rewrite("r31_discard_excess", "C14 C07", ("filter_points.py", """    filter_target_size = int(np.floor(target_size * n_max_factor))

    n_to_drop = max(0, len(xs) - filter_target_size)

    if n_to_drop:
        xs, indices = drop_worst_points(xs, indices, state, n_to_drop)

    return xs, indices
""", """    n_to_drop = len(xs) - int(target_size * n_max_factor)
    if n_to_drop <= 0:
        return xs, indices
    return drop_worst_points(
        xs=xs, indices=indices, state=state, n_to_drop=n_to_drop
    )
"""))

rewrite("r32_eval_info", "C07 C05 C21", ("tranquilo.py", """    existing_n_evals = history.get_n_evals(model_indices)
    eval_info = {k: n_evals_per_point - v for k, v in existing_n_evals.items()}
    eval_info = {k: v for k, v in eval_info.items() if v > 0}
    return eval_info
""", """    eval_info = {}
    for index, n_evals in history.get_n_evals(model_indices).items():
        if n_evals < n_evals_per_point:
            eval_info[index] = n_evals_per_point - n_evals
    return eval_info
"""), ("history.py", """        fvals = self.get_fvals(x_indices)
        n_evals = {k: len(v) for k, v in fvals.items()}
        return n_evals
""", """        return {i: len(values) for i, values in self.get_fvals(x_indices).items()}
"""))
