#!/usr/bin/env python3
"""Behaviour-preserving edits: every check has to stay quiet on them.

usage: quiet.py [name ...]    applies each edit in a scratch copy of /repo, runs its tests and all checks against the copy,
                              prints alarms and what became undecided
"""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K, KM, C, PM = "src/curve/knots/mod.rs", "src/curve/knots/methods.rs", "src/curve/mod.rs", "src/curve/points/mod.rs"
M, I, S, FX, LO, FM = ("src/manipulation/merge.rs", "src/manipulation/insert.rs", "src/manipulation/split.rs",
                       "src/curve/points/methods/fit/fixed.rs", "src/curve/points/methods/fit/loose.rs",
                       "src/curve/points/methods/fit/mod.rs")
PA, B, G, IN = "src/curve/parameters/methods.rs", "src/curve/basis/mod.rs", "src/curve/generation/mod.rs", "src/curve/points/methods/interpolation.rs"

EDITS = {
    "knots-windows": [(K, """    let mut it = knots.Uk[0].iter();
    match it.next() {
        None => true,
        Some(first) => it
            .scan(first, |state, next| {
                let cmp = *state <= next;
                *state = next;
                Some(cmp)
            })
            .all(|b| b),
    }
""", """    knots.vector().as_slice().windows(2).all(|w| w[0] <= w[1])
""")],
    "knots-multiplicity-slice": [(K, "self.domain().iter().filter(|&x| *x == u).count()", """{
            let U0 = self.vector().as_slice();
            U0[self.p..self.p + self.domain_count()].iter().filter(|x| **x == u).count()
        }""")],
    "split-multiplicity-slice": [(S, "c.knots.vector().iter().skip(l).take_while(|&&x| x == u).count()",
                                  "c.knots.vector().as_slice()[l..].iter().take_while(|x| **x == u).count()")],
    "split-multiplicity-bool": [(S, "c.knots.vector().iter().skip(l).take_while(|&&x| x == u).count()",
                                 "c.knots.vector().iter().skip(l).map(|x| usize::from(*x == u)).sum::<usize>()")],
    "knots-clamped-slice": [(K, "U0.iter().rev().take(clamp_size).all(|&u| u == 1.0)", "U0.as_slice()[U0.len().saturating_sub(clamp_size)..].iter().all(|u| *u == 1.0)")],
    "knots-averaging-slice-sum": [(KM, "U[p + j] = parameter_sum / p as f64;", "let _ = parameter_sum;\n        U[p + j] = U_bar.as_slice()[j..j + p].iter().sum::<f64>() / p as f64;")],
    "points-single-cache": [(PM, "(self.derive_single_point(i + 1, k_max - 1, knots) - self.derive_single_point(i, k_max - 1, knots))",
                             "(self.Pk[k_max - 1].column(i + 1) - self.Pk[k_max - 1].column(i))")],
    "points-single-swap": [(PM, r"re:derive_single_point\((i|i \+ 1), (k|k_max|k_max - 1), knots\)", r"derive_single_point(\2, \1, knots)"),
                           (PM, "derive_single_point(&self, i: usize, k_max: usize,", "derive_single_point(&self, k_max: usize, i: usize,")],
    "merge-prefactor-count": [(M, r"re:prefactor\((p, .*?), (S|T|Pshifted|P0), (&Vk\[0\]|&Wk\[0\]|U0)\)", r"prefactor(\1, \2.ncols() - 1, \3)"),
                              (M, "P0.ncols() - 1, U0) - prefactor(p, i, i0, k - 1, P0.ncols() - 1, U0)", "n, U0) - prefactor(p, i, i0, k - 1, n, U0)"),
                              (M, "k: usize, P0: &MatD, U0: &VecD) -> f64 {\n    let n = P0.ncols() - 1; // TODO use points\n", "k: usize, n: usize, U0: &VecD) -> f64 {\n")],
    "merge-prefactor-swap": [(M, r"re:prefactor\(p, (a|b|idx|i \+ 1|i), (i|j|zeroOrderIdx|i0), ", r"prefactor(p, \2, \1, "),
                             (M, "fn prefactor(p: usize, i: usize, i0: usize,", "fn prefactor(p: usize, i0: usize, i: usize,")],
    "fit-difference-swap": [(FM, r"re:difference_operator\((i|i \+ 1), j, k - 1\)", r"difference_operator(j, \1, k - 1)"),
                            (FM, "difference_operator(i: usize, j: usize,", "difference_operator(j: usize, i: usize,"),
                            (LO, "difference_operator(i, j, kappa)", "difference_operator(j, i, kappa)"),
                            (FX, "difference_operator(i, j, kappa)", "difference_operator(j, i, kappa)")],
    "fit-difference-explicit": [(FM, "difference_operator(i + 1, j, k - 1) - difference_operator(i, j, k - 1),", """{
            if j < i || j > i + k {
                return 0;
            }
            let r = j - i;
            let mut c: isize = 1;
            for t in 0..r {
                c = c * (k - t) as isize / (t + 1) as isize;
            }
            if (k - r) % 2 == 0 {
                c
            } else {
                -c
            }
        }""")],
    "merge-helper-joint": [(M, """            let mut sum = 0.;

            for a in m - p..=m - k {
                sum += prefactor(p, a, i, k, S, &Vk[0]) * basis(&Vk[k], a, p - k, 0, m - k, Vk[0][m + 1]);
            }
            KV[(k, i - (m + 1 - p))] = sum;
""", """            KV[(k, i - (m + 1 - p))] = end_coefficient(p, m, i, k, S, Vk);
"""), (M, """            let mut sum = 0.;

            for a in m - p..=m - k {
                sum += prefactor(p, a, i, k, S, &Vk[0]) * basis(&Vk[k], a, p - k, 0, m - k, Vk[0][m + 1]);
            }
            IV[(i - (m + 1 - p), k)] = sum;
""", """            IV[(i - (m + 1 - p), k)] = end_coefficient(p, m, i, k, S, Vk);
"""), (M, "fn calculateIV(", """fn end_coefficient(p: usize, m: usize, i: usize, k: usize, S: &MatD, Vk: &[VecD]) -> f64 {
    let mut sum = 0.;
    for a in m - p..=m - k {
        sum += prefactor(p, a, i, k, S, &Vk[0]) * basis(&Vk[k], a, p - k, 0, m - k, Vk[0][m + 1]);
    }
    sum
}

fn calculateIV(""")],
    "merge-sum-iterator": [(M, """            let mut sum = 0.;

            for b in 0..=p - k {
                sum += prefactor(p, b, j, k, T, &Wk[0]) * basis(&Wk[k], b, p - k, 0, o - k, Wk[0][p]);
            }
            KW[(k, j)] = sum;
""", """            KW[(k, j)] = (0..=p - k)
                .map(|b| prefactor(p, b, j, k, T, &Wk[0]) * basis(&Wk[k], b, p - k, 0, o - k, Wk[0][p]))
                .sum::<f64>();
""")],
    "merge-transposed-block": [(M, "copy_from(&calculateIV(a.curve));", "copy_from(&(calculateKV(a.curve).transpose() * 0.5));")],
    "merge-negated-early": [(M, """            KW[(k, j)] = sum;
        }
    }
    KW *= -1.0;
""", """            KW[(k, j)] = -sum;
        }
    }
""")],
    "merge-checks-in-helper": [(M, """    if !is_clamped(&a.curve.knots) || !is_clamped(&b.curve.knots) {
        return Err(MergeError::UnclampedCurve);
    }

    if !is_normed(&a.curve.knots) || !is_normed(&b.curve.knots) {
        return Err(MergeError::UnnormedCurve);
    }
""", """    check_knots(a.curve, b.curve)?;
"""), (M, "fn construct_Nmat(", """fn check_knots(a: &Curve, b: &Curve) -> Result<(), MergeError> {
    if !(is_clamped(&a.knots) && is_clamped(&b.knots)) {
        return Err(MergeError::UnclampedCurve);
    }
    if !(is_normed(&a.knots) && is_normed(&b.knots)) {
        return Err(MergeError::UnnormedCurve);
    }
    Ok(())
}

fn construct_Nmat(""")],
    "merge-helper-vec": [(M, """    controlPoint
}

fn adjust_shifted_control_points(""", """    let result = controlPoint;
    result
}

fn adjust_shifted_control_points("""), (M, "for zeroOrderIdx in 0..=n {", "for zeroOrderIdx in 0..n + 1 {")],
    "merge-ascending-k": [(M, """        for k in (0..=n - i).rev() {
            qki[i][k] =""", """        for k in 0..=n - i {
            qki[i][k] =""")],
    "merge-while-i": [(M, """    for i in n - p + 2..=n {
        qki[i].resize(n - i + 1, VecD::zeros(dim));
        for k in (0..=n - i).rev() {
            qki[i][k] = ((Uadj[i + p] - Uadj[i + k]) / ((p - k) as f64)) * &qki[i - 1][k + 1] + &qki[i - 1][k];
        }
    }
""", """    let mut i = n - p + 2;
    while i <= n {
        qki[i].resize(n - i + 1, VecD::zeros(dim));
        for k in 0..=n - i {
            let scale = (Uadj[i + p] - Uadj[i + k]) / ((p - k) as f64);
            qki[i][k] = &qki[i - 1][k] + scale * &qki[i - 1][k + 1];
        }
        i += 1;
    }
""")],
    "merge-knots-one-loop": [(M, """    let mut Umerged = VecD::zeros(m + 2 + o + 1);

    Umerged.head_mut(m + 2).copy_from(&Vadj.head(m + 2));
    Umerged.tail_mut(o + 1).copy_from(&Wadj.tail(o + 1));
""", """    let mut Umerged = VecD::zeros(m + o + 3);

    for i in 0..m + 2 {
        Umerged[i] = Vadj[i];
    }
    let skipped = Wadj.len() - (o + 1);
    for i in 0..o + 1 {
        Umerged[m + 2 + i] = Wadj[skipped + i];
    }
""")],
    "merge-points-columns": [(M, """    P_merged.columns_mut(0, n_points1).copy_from(Sadj);

    let right_cols = n_points2 + 1 - p;
    P_merged
        .columns_mut(P_merged.ncols() - right_cols, right_cols)
        .copy_from(&Tadj.columns(Tadj.ncols() - right_cols, right_cols));
""", """    for i in 0..n_points1 {
        P_merged.set_column(i, &Sadj.column(i));
    }
    for i in n_points1 - 1..n_points1 + n_points2 - p {
        P_merged.set_column(i, &Tadj.column(i + p - n_points1));
    }
""")],
    "merge-prefactor-early": [(M, """    if i <= n - k {
        if k == 0 {
            if kronecker_delta(i, i0) {
                1.
            } else {
                0.
            }
        } else if U0[i + p + 1] == U0[i + k] {
            0.
        } else {
            (p + 1 - k) as f64 / (U0[i + p + 1] - U0[i + k]) *
                (prefactor(p, i + 1, i0, k - 1, P0, U0) - prefactor(p, i, i0, k - 1, P0, U0))
        }
    } else {
        0.
    }
""", """    if i > n - k {
        return 0.;
    }
    if k == 0 {
        return if i == i0 { 1. } else { 0. };
    }
    let span = U0[i + p + 1] - U0[i + k];
    if U0[i + p + 1] == U0[i + k] {
        return 0.;
    }
    let difference = prefactor(p, i + 1, i0, k - 1, P0, U0) - prefactor(p, i, i0, k - 1, P0, U0);
    (p + 1 - k) as f64 * difference / span
""")],
    "merge-inline-shift": [(M, """    Sshifted.columns_mut(Sshifted.ncols() - p, p).add_assign(shifts.columns(0, p));

    Tshifted.columns_mut(0, p).add_assign(shifts.columns(p, p));
""", """    let first = Sshifted.ncols() - p;
    for i in 0..p {
        let mut left = Sshifted.column_mut(first + i);
        left += shifts.column(i);
        let mut right = Tshifted.column_mut(i);
        right += shifts.column(p + i);
    }
""")],
    "knots-reverse-formula": [(K, """    let nrows = knots.nrows();
    let half_nrows = knots.len() / 2;

    for i in 0..half_nrows {
        knots.swap_rows(i, nrows - 1 - i);
    }

    knots.add_scalar_mut(-1.0);
    knots.mul_assign(-1.0);
""", """    let last = knots.len() - 1;
    let copy = knots.clone();
    for i in 0..=last {
        knots[i] = 1.0 - copy[last - i];
    }
""")],
    "knots-rescale-elementwise": [(K, """    let n = knots.len();
    *knots -= VecD::repeat(n, old_lim.0);
    *knots /= old_lim.1 - old_lim.0;
    *knots *= new_lim.1 - new_lim.0;
    *knots += VecD::repeat(n, new_lim.0);
""", """    for u in knots.iter_mut() {
        *u = rescaled_knot(*u, old_lim, new_lim);
    }
""")],
    "knots-sorted-windows": [(K, """    let mut it = knots.Uk[0].iter();
    match it.next() {
        None => true,
        Some(first) => it
            .scan(first, |state, next| {
                let cmp = *state <= next;
                *state = next;
                Some(cmp)
            })
            .all(|b| b),
    }
""", """    let U0 = knots.vector();
    for i in 1..U0.len() {
        if !(U0[i - 1] <= U0[i]) {
            return false;
        }
    }
    true
""")],
    "knots-clamped-loop": [(K, """    let is_head_clamped = U0.iter().take(clamp_size).all(|&u| u == 0.0);
    let is_tail_clamped = U0.iter().rev().take(clamp_size).all(|&u| u == 1.0);

    is_head_clamped && is_tail_clamped
""", """    let head = U0.iter().take(clamp_size);
    let tail = U0.iter().skip(U0.len().saturating_sub(clamp_size));
    let mut clamped = true;
    for &u in head {
        clamped &= u == 0.0;
    }
    for &u in tail {
        clamped &= u == 1.0;
    }
    clamped
""")],
    "knots-normed-fold": [(K, """    let is_min_zero = U0.iter().min_by(|a, b| a.partial_cmp(b).unwrap()) == Some(&0.0);
    let is_max_unity = U0.iter().max_by(|a, b| a.partial_cmp(b).unwrap()) == Some(&1.0);

    is_min_zero && is_max_unity
""", """    U0.min() == 0.0 && U0.max() == 1.0
""")],
    "knots-derive-from-first": [(K, """            let segment_of_previous_order_knot_vector = self.Uk[k - 1].segment(1, self.len(k - 1) - 2).clone_owned();

            self.Uk.push(segment_of_previous_order_knot_vector);
""", """            let inner = self.Uk[0].segment(k, self.len(0) - 2 * k).clone_owned();

            self.Uk.push(inner);
""")],
    "knots-derive-last": [(K, """            let segment_of_previous_order_knot_vector = self.Uk[k - 1].segment(1, self.len(k - 1) - 2).clone_owned();

            self.Uk.push(segment_of_previous_order_knot_vector);
""", """            let previous = &self.Uk[k - 1];
            let next = previous.segment(1, previous.len() - 2).clone_owned();
            self.Uk.push(next);
""")],
    "knots-multiplicity-loop": [(K, "        self.domain().iter().filter(|&x| *x == u).count()\n", """        let mut count = 0;
        for &knot in self.domain().iter() {
            if knot == u {
                count += 1;
            }
        }
        count
""")],
    "knots-find-loop": [(K, """                let lim = self.segments() + 1 - k;
                let mut i = pk;

                while u >= Uk[i + 1] && i + 1 < lim {
                    i += 1;
                    if Uk[i] == u && Uk[i + 1] == u {
                        break;
                    }
                }
                i
""", """                let lim = self.segments() + 1 - k;
                let mut i = pk;

                loop {
                    if !(u >= Uk[i + 1] && i + 1 < lim) {
                        break;
                    }
                    i += 1;
                    let repeated = Uk[i] == u && Uk[i + 1] == u;
                    if repeated {
                        break;
                    }
                }
                i
""")],
    "knots-uniform-filled": [(KM, """    for i in 1..=internal_knot_count {
        U[degree + i] = i as f64 / (internal_knot_count + 1) as f64
    }

    // Set the tail clamp to one.
    for i in n + 1..U.len() {
        U[i] = 1.;
    }
""", """    let spans = (internal_knot_count + 1) as f64;
    for i in p + 1..=n {
        U[i] = (i - p) as f64 / spans;
    }
    U.rows_mut(n + 1, p + 1).fill(1.0);
""")],
    "knots-averaging-helper": [(KM, """        let mut parameter_sum = 0.;

        let lim = j + p - 1;
        for i in j..=lim {
            parameter_sum += U_bar[i];
        }
        U[p + j] = parameter_sum / p as f64;
""", """        U[p + j] = mean(U_bar, j, p);
"""), (KM, "///  see eq. (9.8) in `Piegl1997`\n", """fn mean(values: &VecD, first: usize, count: usize) -> f64 {
    let mut total = 0.;
    for i in first..first + count {
        total += values[i];
    }
    total / count as f64
}

///  see eq. (9.8) in `Piegl1997`
""")],
    "knots-averaging-slice": [(KM, """        let mut parameter_sum = 0.;

        let lim = j + p - 1;
        for i in j..=lim {
            parameter_sum += U_bar[i];
        }
        U[p + j] = parameter_sum / p as f64;
""", """        U[p + j] = U_bar.rows(j, p).sum() / p as f64;
""")],
    "deboor-convex": [(KM, """        U[degree + j] = (1f64 - alpha) * U_bar[i - 1] + alpha * U_bar[i];
""", """        let (a, b) = (U_bar[i - 1], U_bar[i]);
        U[degree + j] = a + alpha * (b - a);
"""), (KM, "let i = jd as usize;", "let i = jd.floor() as usize;")],
    "curve-evaluate-column": [(C, """                value += self.knots.evaluate(k, i, p, u) * self.points.matrix_derivative(k).column(i);
""", """                let weight = self.knots.evaluate(k, i, p, u);
                let column = self.points.matrix_derivative(k).column(i);
                value += column * weight;
""")],
    "curve-evaluate-early": [(C, """        if k <= p {
            let n = self.segments();
            let l = self.knots.find_idx(u, k, knots::DomainKnotComparatorType::LeftOrEqual);

            for i in l - (p - k)..=n - k {
                value += self.knots.evaluate(k, i, p, u) * self.points.matrix_derivative(k).column(i);
            }
        }
        Ok(value)
""", """        if k > p {
            return Ok(value);
        }
        let n = self.segments();
        let l = self.knots.find_idx(u, k, knots::DomainKnotComparatorType::LeftOrEqual);
        let points = self.points.matrix_derivative(k);
        let mut i = l - (p - k);
        while i <= n - k {
            value += self.knots.evaluate(k, i, p, u) * points.column(i);
            i += 1;
        }
        Ok(value)
""")],
    "curve-bounds-explicit": [(C, "if !(0.0..=1.0).contains(&u) {", "if !(u >= 0.0 && u <= 1.0) {")],
    "points-derive-loop": [(PM, """            for (i, mut col) in Pnew.column_iter_mut().enumerate() {
                col.copy_from(&self.derive_single_point(i, k, knots));
            }
""", """            for i in 0..=n - k {
                Pnew.set_column(i, &self.derive_single_point(i, k, knots));
            }
""")],
    "points-derive-iterative": [(PM, """            for (i, mut col) in Pnew.column_iter_mut().enumerate() {
                col.copy_from(&self.derive_single_point(i, k, knots));
            }
""", """            let U0 = knots.vector();
            for i in 0..=n - k {
                let width = U0[i + p + 1] - U0[i + k];
                if U0[i + p + 1] != U0[i + k] {
                    let difference = self.Pk[k - 1].column(i + 1) - self.Pk[k - 1].column(i);
                    Pnew.set_column(i, &(difference * ((p + 1 - k) as f64 / width)));
                }
            }
""")],
    "points-single-helper": [(PM, """        (p - k_max + 1) as f64 / (U0[i + p + 1] - U0[i + k_max]) *
            (self.derive_single_point(i + 1, k_max - 1, knots) - self.derive_single_point(i, k_max - 1, knots))
""", """        let right = self.derive_single_point(i + 1, k_max - 1, knots);
        let left = self.derive_single_point(i, k_max - 1, knots);
        let factor = (p - k_max + 1) as f64 / (U0[i + p + 1] - U0[i + k_max]);
        (right - left) * factor
""")],
    "points-reverse-while": [(PM, """    for i in 0..half_ncols {
        points.swap_columns(i, ncols - 1 - i);
    }
""", """    let mut i = 0;
    while i < half_ncols {
        let j = ncols - 1 - i;
        points.swap_columns(i, j);
        i += 1;
    }
""")],
    "points-reverse-sign": [(PM, """            if k % 2 == 1 {
                Pk.mul_assign(-1.0);
            }
""", """            if k % 2 != 0 {
                Pk.neg_mut();
            }
""")],
    "points-reverse-copy": [(PM, """    let ncols = points.ncols();
    let half_ncols = points.ncols() / 2;

    for i in 0..half_ncols {
        points.swap_columns(i, ncols - 1 - i);
    }
""", """    let copy = points.clone();
    let ncols = copy.ncols();
    for i in 0..ncols {
        points.set_column(i, &copy.column(ncols - 1 - i));
    }
""")],
    "insert-alpha-local": [(I, """    let mut alpha: f64;
    for i in (l - p + 1)..=l {
        alpha = (u - U_old[i]) / (U_old[i + p] - U_old[i]);

        P_new.column_mut(i).add_assign((1. - alpha) * P_old.column(i - 1) + alpha * P_old.column(i));
    }
""", """    for i in (l + 1 - p)..l + 1 {
        let (lower, upper) = (U_old[i], U_old[i + p]);
        let alpha = (u - lower) / (upper - lower);
        let point = alpha * P_old.column(i) + (1. - alpha) * P_old.column(i - 1);
        P_new.set_column(i, &point);
    }
""")],
    "insert-copies-loop": [(I, """    let top_cols = l - p + 1;
    P_new.columns_mut(0, top_cols).copy_from(&P_old.columns(0, top_cols));

    let bot_cols = control_point_count - l;
    P_new.columns_mut(P_new.ncols() - bot_cols, bot_cols).copy_from(&P_old.columns(P_old.ncols() - bot_cols, bot_cols));
""", """    for i in 0..=l - p {
        P_new.set_column(i, &P_old.column(i));
    }
    for i in l + 1..=control_point_count {
        P_new.set_column(i, &P_old.column(i - 1));
    }
""")],
    "insert-multiplicity-once": [(I, "if c.knots.multiplicity(u) > p {", "if m > p {")],
    "insert-helper": [(I, """    let mut alpha: f64;
    for i in (l - p + 1)..=l {
        alpha = (u - U_old[i]) / (U_old[i + p] - U_old[i]);

        P_new""", """    for i in (l - p + 1)..=l {
        let alpha = ratio(u, U_old[i], U_old[i + p]);

        P_new"""), (I, "pub fn insert(", """fn ratio(u: f64, from: f64, to: f64) -> f64 {
    (u - from) / (to - from)
}

pub fn insert(""")],
    "split-while": [(S, """    for _ in 0..p - multiplicity {
        insert(&mut bs_inserted, u).unwrap();
    }
""", """    let mut missing = p - multiplicity;
    while missing > 0 {
        insert(&mut bs_inserted, u).unwrap();
        missing -= 1;
    }
""")],
    "split-left-helper": [(S, """            if normalizeKnotVectors.0 {
                normalize(&mut U_left);
            }
            let bot_cols = U_left.len() - (p + 2) + 1;
            let P_left: MatD = P.columns(0, bot_cols).into();

            Curve::new(Knots::new(p, U_left), ControlPoints::new(P_left))?
""", """            left_part(p, U_left, P, normalizeKnotVectors.0)?
"""), (S, "pub fn split_and_normalize(", """fn left_part(p: usize, mut U: VecD, P: &MatD, normalized: bool) -> Result<Curve, CurveError> {
    if normalized {
        normalize(&mut U);
    }
    let count = U.len() - p - 1;
    let points = P.columns(0, count).clone_owned();
    Curve::new(Knots::new(p, U), ControlPoints::new(points))
}

pub fn split_and_normalize(""")],
    "fit-fixed-direct": [(FX, """        Q.column_mut(g).copy_from(&points.get(g));
        let u = U_bar[g];

        Q.column_mut(g).sub_assign(knots.evaluate(0, 0, p, u) * points.get(0));
        Q.column_mut(g).sub_assign(knots.evaluate(0, n, p, u) * points.get(m));
""", """        let u = U_bar[g];
        let first = knots.evaluate(0, 0, p, u) * points.get(0);
        let last = knots.evaluate(0, n, p, u) * points.get(m);
        Q.set_column(g, &(points.get(g) - first - last));
""")],
    "fit-fixed-product": [(FX, """        accum *= 0.0;

        for g in 1..=m - 1 {
            let u = U_bar[g];
            accum += knots.evaluate(0, i, p, u) * Q.column(g);
        }
        Qmat.column_mut(i - 1).copy_from(&accum);
""", """        accum.fill(0.0);

        for g in 1..m {
            accum += Q.column(g) * knots.evaluate(0, i, p, U_bar[g]);
        }
        Qmat.set_column(i - 1, &accum);
""")],
    "fit-difference-match": [(FM, """        1 => {
            if i == j {
                return -1;
            }
            if i + 1 == j {
                return 1;
            }
            0
        }
""", """        1 if i == j => -1,
        1 if j == i + 1 => 1,
        1 => 0,
""")],
    "fit-loose-order": [(FM, "    let mut mat = Nmat.transpose() * Nmat;\n", "    let transposed = Nmat.transpose();\n    let mut mat = &transposed * Nmat;\n"),
                        (FM, "mat += l * (delta_mat.transpose() * delta_mat);", "let penalty = (delta_mat.transpose() * delta_mat) * l;\n                mat += penalty;")],
    "params-centripetal": [(PA, """    for g in 1..=m {
        let diff = points.get(g) - points.get(g - 1);
        sum += diff.norm().sqrt()
    }
""", """    for g in 0..m {
        sum += (points.get(g + 1) - points.get(g)).norm().sqrt();
    }
""")],
    "params-chord-helper": [(PA, """    for g in 1..=m {
        let diff = points.get(g) - points.get(g - 1);
        sum += diff.norm();
    }
""", """    for g in 1..=m {
        sum += chord(points, g);
    }
"""), (PA, "pub fn chord_length(", """fn chord(points: &DataPoints, g: usize) -> f64 {
    (points.get(g) - points.get(g - 1)).norm()
}

pub fn chord_length(""")],
    "generate-early-return": [(G, "if points.segments() < degree {", "if n < p {")],
}


def main():
    names = sys.argv[1:] or list(EDITS)
    root = "/tmp/quiet"
    os.makedirs(root, exist_ok=True)
    sys.path.insert(0, os.path.join(HERE, "engine"))
    import props
    ids = sorted(props.PROPS)
    def one(nm):
        w = f"{root}/{nm}"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(f"mkdir -p {w}/v && cp -a /repo {w}/r && cp -a {HERE}/check.py {HERE}/engine {HERE}/driver {HERE}/known_findings.txt {w}/v/ && "
                       f"(cp -a {HERE}/.build {w}/v/ || true); rm -f {w}/v/.build/mir-*; mkdir -p {w}/v/evidence", shell=True, check=True)
        out = [f"== {nm}"]
        for f, o, n in EDITS[nm]:
            s = open(f"{w}/r/{f}").read()
            t = re.sub(o[3:], n, s) if o.startswith("re:") else s.replace(o, n, 1)
            if s == t:
                return "\n".join(out + [f"   the text to edit is gone: {o[:60]!r}"])
            open(f"{w}/r/{f}", "w").write(t)
        t = subprocess.run("cargo test --lib --offline 2>&1 | tail -40", shell=True, cwd=f"{w}/r", capture_output=True, text=True, errors="replace").stdout
        if "test result: ok" not in t:
            err = [l for l in t.split("\n") if l.startswith("error") or "FAILED" in l or "panicked" in l]
            shutil.rmtree(w)
            return "\n".join(out + ["   NO GOOD: " + "; ".join(err[:4])])
        for i in ids:
            try:
                o = subprocess.run(["python3", "check.py", i, "--no-evidence", "--repo", f"{w}/r"], cwd=f"{w}/v", capture_output=True, text=True, errors="replace", timeout=900)
                so = o.stdout
            except subprocess.TimeoutExpired:
                so, o = "TIMEOUT", None
            if o is None or o.returncode != 0:
                so2 = so if o is None else so + o.stderr
                out.append(f"   ALARM {i}: " + " | ".join(l for l in so2.split("\n") if l.startswith(("rule ", "function", "at ", "verdict", "case", "TIMEOUT", "Trace")))[:600])
            else:
                u = [l for l in so.split("\n") if l.startswith("UNDECIDED")]
                if u:
                    out.append(f"   undecided {i} ({len(u)}): {u[0][10:200]}")
        shutil.rmtree(w)
        return "\n".join(out)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for r in ex.map(one, names):
            print(r, flush=True)


main()
