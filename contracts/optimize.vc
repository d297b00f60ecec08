#mod optimize::differential_evolution
raw:
  use vstd::std_specs::convert::IntoSpec;
  use crate::rand::{lt, le};
  // (a law of PartialOrd: a < b iff b > a)
  pub open spec fn dual<T: PartialOrd>() -> bool {
    forall|a: T, b: T| match #[trigger] a.partial_cmp_spec(&b) {
      Some(core::cmp::Ordering::Less) => b.partial_cmp_spec(&a) == Some(core::cmp::Ordering::Greater),
      Some(core::cmp::Ordering::Equal) => b.partial_cmp_spec(&a) == Some(core::cmp::Ordering::Equal),
      Some(core::cmp::Ordering::Greater) => b.partial_cmp_spec(&a) == Some(core::cmp::Ordering::Less),
      None => b.partial_cmp_spec(&a) is None,
    }
  }
  // exact operations of the coordinate type (no laws)
  pub open spec fn de_ops<T>() -> bool where T: PartialOrd + Clone + Copy + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>, i8: Into<T> {
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec() && <f32 as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& dual::<T>() && dual::<f32>()
    &&& <i8 as IntoSpec<T>>::obeys_into_spec()
    &&& T::obeys_add_spec() && T::obeys_sub_spec() && T::obeys_mul_spec()
    &&& forall|a: T, b: T| #[trigger] T::add_req(a, b)
    &&& forall|a: T, b: T| #[trigger] T::sub_req(a, b)
    &&& forall|a: T, b: T| #[trigger] T::mul_req(a, b)
  }
  pub open spec fn valid<T>(size: int, cp: f32, w: T) -> bool where T: PartialOrd, i8: Into<T> {
    &&& size >= 4
    &&& le(0.0f32, cp) && le(cp, 1.0f32)
    &&& le(<i8 as IntoSpec<T>>::into_spec(0i8), w) && le(w, <i8 as IntoSpec<T>>::into_spec(2i8))
  }
  pub open spec fn seqs<T, const N: usize>(p: Seq<[T; N]>) -> Seq<Seq<T>> { Seq::new(p.len(), |i: int| p[i]@) }
  // the initial candidates (a name for the quantifier)
  pub open spec fn tagged<T>(init: Seq<Seq<T>>) -> bool { true }
  // the members of the population after the first t comparisons of the improvement loop
  #[verifier::opaque]
  pub open spec fn pop<T>(init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int, t: nat) -> Seq<Seq<T>>
    decreases t,
  {
    if t == 0 { init } else {
      let p = pop(init, log, b, (t - 1) as nat);
      if log[b + t - 1].2 { p.update((t - 1) as int % (init.len() as int), log[b + t - 1].0) } else { p }
    }
  }
  pub open spec fn mutant<T>(p: Seq<Seq<T>>, j: int, k: int, l: int, n: int, w: T) -> T where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> {
    p[j][n].add_spec(p[k][n].sub_spec(p[l][n]).mul_spec(w))
  }
  pub open spec fn trial_of<T>(p: Seq<Seq<T>>, i: int, j: int, k: int, l: int, w: T, full: bool, x: Seq<T>, dim: int) -> bool where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> {
    &&& 0 <= j < p.len() && 0 <= k < p.len() && 0 <= l < p.len()
    &&& i != j && i != k && i != l && j != k && j != l && k != l
    &&& x.len() == dim
    &&& forall|n: int| 0 <= n < dim ==> #[trigger] x[n] == p[i][n] || x[n] == mutant(p, j, k, l, n, w)
    &&& exists|n: int| 0 <= n < dim && #[trigger] x[n] == mutant(p, j, k, l, n, w)
    &&& full ==> forall|n: int| 0 <= n < dim ==> #[trigger] x[n] == mutant(p, j, k, l, n, w)
  }
  #[verifier::opaque]
  pub open spec fn trial<T>(p: Seq<Seq<T>>, i: int, w: T, full: bool, x: Seq<T>, dim: int) -> bool where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> {
    exists|j: int, k: int, l: int| #[trigger] trial_of(p, i, j, k, l, w, full, x, dim)
  }
  // comparison t of the improvement loop is made for member t mod n of the population of that moment
  #[verifier::opaque]
  pub open spec fn members_ok<T>(init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int, iters: int) -> bool {
    forall|t: nat| t < iters ==> #[trigger] log[b + t].1 == pop(init, log, b, t)[t as int % (init.len() as int)]
  }
  #[verifier::opaque]
  pub open spec fn trials_ok<T>(init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int, iters: int, w: T, full: bool, dim: int) -> bool where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> {
    forall|t: nat| t < iters ==> trial(pop(init, log, b, t), t as int % (init.len() as int), w, full, (#[trigger] log[b + t]).0, dim)
  }
  #[verifier::opaque]
  pub open spec fn in_bounds<T: PartialOrd>(init: Seq<Seq<T>>, bounds: Seq<(T, T)>) -> bool {
    forall|i: int, n: int| 0 <= i < init.len() && 0 <= n < bounds.len() ==> le(bounds[n].0, #[trigger] init[i][n]) && lt(init[i][n], bounds[n].1)
  }
  // strict weak order
  pub open spec fn swo<T>(o: spec_fn(Seq<T>, Seq<T>) -> bool) -> bool {
    &&& forall|a: Seq<T>| !#[trigger] o(a, a)
    &&& forall|a: Seq<T>, b: Seq<T>, c: Seq<T>| #[trigger] o(a, b) && #[trigger] o(b, c) ==> o(a, c)
    &&& forall|a: Seq<T>, b: Seq<T>, c: Seq<T>| !#[trigger] o(a, b) && !#[trigger] o(b, c) ==> !o(a, c)
  }
  // every answer of the comparator from call b on is that of the order
  pub open spec fn answers<T>(o: spec_fn(Seq<T>, Seq<T>) -> bool, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int) -> bool {
    forall|t: int| b <= t < log.len() ==> (#[trigger] log[t]).2 == o(log[t].0, log[t].1)
  }
  pub open spec fn cand<T>(c: Seq<T>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int) -> bool {
    ||| exists|i: int| 0 <= i < init.len() && #[trigger] init[i] == c
    ||| exists|t: int| b <= t < log.len() && ((#[trigger] log[t]).0 == c || log[t].1 == c)
  }
  #[verifier::opaque]
  pub open spec fn best<T>(r: Seq<T>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int) -> bool {
    forall|o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>| #[trigger] swo(o) && answers(o, log, b) && #[trigger] cand(c, init, log, b) ==> !o(c, r)
  }
  // for every candidate so far one of the members is not worse
  pub open spec fn covered<T>(o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>, p: Seq<Seq<T>>, h: int, a: int) -> bool {
    exists|m: int| 0 <= m < p.len() && (m < h || a <= m) && !o(c, #[trigger] p[m])
  }
  // (members h..a have been dropped from the race)
  #[verifier::opaque]
  pub open spec fn cover<T>(p: Seq<Seq<T>>, h: int, a: int, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int) -> bool {
    forall|o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>| #[trigger] swo(o) && answers(o, log, b) && #[trigger] cand(c, init, log, b) ==> covered(o, c, p, h, a)
  }
  #[verifier::opaque]
  pub open spec fn all_cand<T>(p: Seq<Seq<T>>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int) -> bool {
    forall|m: int| 0 <= m < p.len() ==> cand(#[trigger] p[m], init, log, b)
  }
  pub proof fn cand_grows<T>(c: Seq<T>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, e: (Seq<T>, Seq<T>, bool), b: int)
    requires 0 <= b <= log.len(), cand(c, init, log, b),
    ensures cand(c, init, log.push(e), b),
  {
    if exists|i: int| 0 <= i < init.len() && #[trigger] init[i] == c {
    } else {
      let t = choose|t: int| b <= t < log.len() && ((#[trigger] log[t]).0 == c || log[t].1 == c);
      assert(log.push(e)[t] == log[t]);
    }
  }
  // a comparison x against y: x challenges member i; the winner takes place i
  pub proof fn duel<T>(p: Seq<Seq<T>>, q: Seq<Seq<T>>, h: int, a: int, a2: int, i: int, x: Seq<T>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, r: bool, b: int)
    requires
      0 <= b <= log.len(), 0 <= i < p.len(), i < h || a <= i, i < h || a2 <= i, h <= a <= a2,
      cover(p, h, a, init, log, b), all_cand(p, init, log, b),
      // the challenger is new or the member that leaves the race
      a2 == a || (a2 == a + 1 && a < p.len() && x == p[a] && i < h),
      q.len() == p.len(),
      forall|m: int| 0 <= m < p.len() && m != i && (m < h || a2 <= m) ==> q[m] == #[trigger] p[m],
      q[i] == if r { x } else { p[i] },
    ensures
      cover(q, h, a2, init, log.push((x, p[i], r)), b),
  {
    reveal(cover);
    reveal(all_cand);
    let e = (x, p[i], r);
    let g = log.push(e);
    assert forall|o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>| #[trigger] swo(o) && answers(o, g, b) && #[trigger] cand(c, init, g, b) implies covered(o, c, q, h, a2) by {
      assert(g[log.len() as int] == e);
      assert(r == o(x, p[i]));
      assert(answers(o, log, b)) by {
        assert forall|t: int| b <= t < log.len() implies (#[trigger] log[t]).2 == o(log[t].0, log[t].1) by { assert(g[t] == log[t]); }
      }
      if c == x {
        if r { assert(!o(c, q[i])); } else { assert(!o(c, q[i])); }
      } else {
        assert(cand(c, init, log, b)) by {
          if exists|i: int| 0 <= i < init.len() && #[trigger] init[i] == c {
          } else {
            let t = choose|t: int| b <= t < g.len() && ((#[trigger] g[t]).0 == c || g[t].1 == c);
            if t == log.len() { assert(cand(p[i], init, log, b)); } else { assert(g[t] == log[t]); }
          }
        }
        assert(covered(o, c, p, h, a));
        let m = choose|m: int| 0 <= m < p.len() && (m < h || a <= m) && !o(c, #[trigger] p[m]);
        if m == i {
          if r { assert(!o(c, x)) by { if o(c, x) { assert(o(x, p[i])); assert(o(c, p[i])); } } }
          assert(!o(c, q[i]));
        } else if m < h || a2 <= m {
          assert(q[m] == p[m]);
        } else {
          // m was the challenger
          assert(m == a && x == p[m]);
          if !r { assert(!o(x, p[i])); assert(!o(c, x)); }
          assert(!o(c, q[i]));
        }
      }
    }
  }
  // what is known of the members after a duel
  pub proof fn duel_cand<T>(p: Seq<Seq<T>>, q: Seq<Seq<T>>, x: Seq<T>, y: Seq<T>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, r: bool, b: int)
    requires
      0 <= b <= log.len(), all_cand(p, init, log, b),
      forall|m: int| 0 <= m < q.len() ==> (#[trigger] q[m] == x || exists|k: int| 0 <= k < p.len() && q[m] == #[trigger] p[k]),
    ensures all_cand(q, init, log.push((x, y, r)), b),
  {
    reveal(all_cand);
    let g = log.push((x, y, r));
    assert forall|m: int| 0 <= m < q.len() implies cand(#[trigger] q[m], init, g, b) by {
      if q[m] == x {
        assert(g[log.len() as int].0 == x);
      } else {
        let k = choose|k: int| 0 <= k < p.len() && q[m] == #[trigger] p[k];
        cand_grows(p[k], init, log, (x, y, r), b);
      }
    }
  }
  pub proof fn pop_prefix<T>(init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, g: Seq<(Seq<T>, Seq<T>, bool)>, b: int, t: nat)
    requires 0 <= b, b + t <= log.len() <= g.len(), forall|s: int| b <= s < b + t ==> log[s] == g[s],
    ensures pop(init, log, b, t) == pop(init, g, b, t),
    decreases t,
  {
    reveal(pop);
    if t > 0 { pop_prefix(init, log, g, b, (t - 1) as nat); }
  }
  pub proof fn pop_len<T>(init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int, t: nat)
    ensures pop(init, log, b, t).len() == init.len(),
    decreases t,
  {
    reveal(pop);
    if t > 0 { pop_len(init, log, b, (t - 1) as nat); }
  }
  // comparisons added later do not change what is known of the first ones
  pub proof fn run_grows<T>(init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, e: (Seq<T>, Seq<T>, bool), b: int, iters: int, w: T, full: bool, dim: int) where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
    requires 0 <= b, 0 <= iters, b + iters <= log.len(),
    ensures
      members_ok(init, log, b, iters) ==> members_ok(init, log.push(e), b, iters),
      trials_ok(init, log, b, iters, w, full, dim) ==> trials_ok(init, log.push(e), b, iters, w, full, dim),
  {
    reveal(members_ok);
    reveal(trials_ok);
    let g = log.push(e);
    assert forall|t: nat| t < iters implies pop(init, g, b, t) == pop(init, log, b, t) && g[b + t] == #[trigger] log[b + t] by {
      pop_prefix(init, log, g, b, t);
    }
    if members_ok(init, log, b, iters) {
      assert forall|t: nat| t < iters implies #[trigger] g[b + t].1 == pop(init, g, b, t)[t as int % (init.len() as int)] by { assert(log[b + t] == g[b + t]); }
    }
    if trials_ok(init, log, b, iters, w, full, dim) {
      assert forall|t: nat| t < iters implies trial(pop(init, g, b, t), t as int % (init.len() as int), w, full, (#[trigger] g[b + t]).0, dim) by { assert(log[b + t] == g[b + t]); }
    }
  }
  pub proof fn start_race<T>(p: Seq<Seq<T>>, h: int, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int)
    requires cover(p, 0, 0, init, log, b),
    ensures cover(p, h, h, init, log, b),
  {
    reveal(cover);
    assert forall|o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>| #[trigger] swo(o) && answers(o, log, b) && #[trigger] cand(c, init, log, b) implies covered(o, c, p, h, h) by {
      assert(covered(o, c, p, 0, 0));
    }
  }
  // after a round the first half (and the odd one out, moved up) remain
  pub proof fn end_race<T>(p: Seq<Seq<T>>, q: Seq<Seq<T>>, h: int, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int)
    requires
      cover(p, h, 2 * h, init, log, b), 1 <= h, h == p.len() / 2, q.len() == (p.len() + 1) / 2,
      forall|m: int| 0 <= m < h ==> q[m] == #[trigger] p[m],
      p.len() % 2 == 1 ==> q[h] == p[p.len() - 1],
    ensures cover(q, 0, 0, init, log, b),
  {
    reveal(cover);
    assert forall|o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>| #[trigger] swo(o) && answers(o, log, b) && #[trigger] cand(c, init, log, b) implies covered(o, c, q, 0, 0) by {
      assert(covered(o, c, p, h, 2 * h));
      let m = choose|m: int| 0 <= m < p.len() && (m < h || 2 * h <= m) && !o(c, #[trigger] p[m]);
      if m < h { assert(q[m] == p[m]); } else { assert(m == p.len() - 1); assert(!o(c, q[h])); }
    }
  }
  // the moment before the first comparison
  pub proof fn run_starts<T>(init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int, w: T, full: bool, dim: int) where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
    requires b == log.len(),
    ensures
      pop(init, log, b, 0) == init, members_ok(init, log, b, 0), trials_ok(init, log, b, 0, w, full, dim),
      cover(init, 0, 0, init, log, b), all_cand(init, init, log, b),
  {
    reveal(pop); reveal(members_ok); reveal(trials_ok); reveal(cover); reveal(all_cand);
    assert forall|o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>| #[trigger] swo(o) && answers(o, log, b) && #[trigger] cand(c, init, log, b) implies covered(o, c, init, 0, 0) by {
      let i = choose|i: int| 0 <= i < init.len() && #[trigger] init[i] == c;
      assert(!o(c, init[i]));
    }
  }
  // one more comparison in the improvement loop
  pub proof fn step_members<T>(init: Seq<Seq<T>>, g: Seq<(Seq<T>, Seq<T>, bool)>, b: int, t: nat, p: Seq<Seq<T>>, q: Seq<Seq<T>>, x: Seq<T>, y: Seq<T>, r: bool)
    requires
      0 <= b, g.len() == b + t, p == pop(init, g, b, t), members_ok(init, g, b, t as int), p.len() == init.len(), init.len() > 0,
      y == p[t as int % (init.len() as int)],
      q =~= if r { p.update(t as int % (init.len() as int), x) } else { p },
    ensures
      pop(init, g.push((x, y, r)), b, (t + 1) as nat) == q, members_ok(init, g.push((x, y, r)), b, (t + 1) as int),
  {
    let h = g.push((x, y, r));
    pop_prefix(init, g, h, b, t);
    reveal(pop);
    reveal(members_ok);
    assert(h[b + t] == (x, y, r));
    assert forall|s: nat| s < t + 1 implies #[trigger] h[b + s].1 == pop(init, h, b, s)[s as int % (init.len() as int)] by {
      if s < t { pop_prefix(init, g, h, b, s); assert(h[b + s] == g[b + s]); }
    }
  }
  pub proof fn step_trials<T>(init: Seq<Seq<T>>, g: Seq<(Seq<T>, Seq<T>, bool)>, b: int, t: nat, p: Seq<Seq<T>>, e: (Seq<T>, Seq<T>, bool), w: T, full: bool, dim: int) where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
    requires
      0 <= b, g.len() == b + t, p == pop(init, g, b, t), trials_ok(init, g, b, t as int, w, full, dim),
      trial(p, t as int % (init.len() as int), w, full, e.0, dim),
    ensures
      trials_ok(init, g.push(e), b, (t + 1) as int, w, full, dim),
  {
    let h = g.push(e);
    reveal(trials_ok);
    assert forall|s: nat| s < t + 1 implies trial(pop(init, h, b, s), s as int % (init.len() as int), w, full, (#[trigger] h[b + s]).0, dim) by {
      pop_prefix(init, g, h, b, s);
      if s < t { assert(h[b + s] == g[b + s]); }
    }
  }
  pub proof fn is_trial<T>(p: Seq<Seq<T>>, i: int, j: int, k: int, l: int, r: int, w: T, full: bool, x: Seq<T>, dim: int) where T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
    requires
      0 <= j < p.len(), 0 <= k < p.len(), 0 <= l < p.len(), i != j, i != k, i != l, j != k, j != l, k != l, x.len() == dim, 0 <= r < dim,
      forall|n: int| 0 <= n < dim ==> #[trigger] x[n] == p[i][n] || x[n] == mutant(p, j, k, l, n, w),
      x[r] == mutant(p, j, k, l, r, w),
      full ==> forall|n: int| 0 <= n < dim ==> #[trigger] x[n] == mutant(p, j, k, l, n, w),
    ensures trial(p, i, w, full, x, dim),
  {
    reveal(trial);
    assert(trial_of(p, i, j, k, l, w, full, x, dim));
  }
  pub proof fn winner<T>(p: Seq<Seq<T>>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int)
    requires cover(p, 0, 0, init, log, b), p.len() == 1, 
    ensures best(p[0], init, log, b),
  {
    reveal(cover); reveal(best);
    assert forall|o: spec_fn(Seq<T>, Seq<T>) -> bool, c: Seq<T>| #[trigger] swo(o) && answers(o, log, b) && #[trigger] cand(c, init, log, b) implies !o(c, p[0]) by {
      assert(covered(o, c, p, 0, 0));
    }
  }
  // the remaining members are old ones
  pub proof fn fewer_cand<T>(p: Seq<Seq<T>>, q: Seq<Seq<T>>, init: Seq<Seq<T>>, log: Seq<(Seq<T>, Seq<T>, bool)>, b: int)
    requires all_cand(p, init, log, b), q.len() <= p.len(), forall|m: int| 0 <= m < q.len() ==> #[trigger] q[m] == p[m] || q[m] == p[p.len() - 1],
    ensures all_cand(q, init, log, b), q.len() > 0 ==> cand(q[0], init, log, b),
  {
    reveal(all_cand);
    assert forall|m: int| 0 <= m < q.len() implies cand(#[trigger] q[m], init, log, b) by { assert(q[m] == p[m] || q[m] == p[p.len() - 1]); assert(cand(p[m], init, log, b) && cand(p[p.len() - 1], init, log, b)); }
    if q.len() > 0 { assert(cand(q[0], init, log, b)); }
  }
#fn optimize
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
  requires
    de_ops::<T>(), population_size < usize::MAX,
    may_panic() || (valid(population_size as int, crossover_probability, differential_weight) && N >= 1 && forall|n: int| 0 <= n < N ==> lt((#[trigger] bounds@[n]).0, bounds@[n].1)),
    old(compare_candidates).gate() == valid(population_size as int, crossover_probability, differential_weight),
  ensures
    valid(population_size as int, crossover_probability, differential_weight), //@C24
    exists|init: Seq<Seq<T>>| {
      let b = old(compare_candidates).log().len() as int;
      let g = final(compare_candidates).log();
      &&& init.len() == population_size
      &&& #[trigger] tagged(init)
      &&& g.len() >= b + num_iters //@C23
      &&& in_bounds(init, bounds@) //@C23
      &&& g.len() == b + num_iters + (population_size - 1) //@C24
      &&& members_ok(init, g, b, num_iters as int) //@C23,C24
      &&& trials_ok(init, g, b, num_iters as int, differential_weight, crossover_probability == 1.0f32, N as int) //@C23
      &&& cand(r@, init, g, b) //@C22
      &&& best(r@, init, g, b) //@C22
    },
pre:
  let ghost b0 = compare_candidates.log().len() as int;
  let ghost full = crossover_probability == 1.0f32;
loop 0:
  n0 == population_size, out0@.len() == k0, compare_candidates.log().len() == b0, population_size >= 4,
  in_bounds(seqs::<T, N>(out0@), bounds@), //@C23
loop-start 0:
  let ghost o0 = seqs::<T, N>(out0@);
loop-end 0:
  assert(in_bounds(seqs::<T, N>(out0@), bounds@)) by { //@C23
    reveal(in_bounds); //@C23
    let s = seqs::<T, N>(out0@); //@C23
    assert forall|i: int, n: int| 0 <= i < s.len() && 0 <= n < N implies le(bounds@[n].0, #[trigger] s[i][n]) && lt(s[i][n], bounds@[n].1) by { //@C23
      if i < i0 { assert(s[i] == o0[i]); } else { assert(s[i] == out0@[i0 as int]@); } //@C23
    } //@C23
  } //@C23
loop 1:
  n1 == N, out1@.len() == k1,
  forall|n: int| 0 <= n < k1 ==> le(bounds@[n].0, #[trigger] out1@[n]) && lt(out1@[n], bounds@[n].1), //@C23
loop-before 0:
  assert(in_bounds(seqs::<T, N>(out0@), bounds@)) by { reveal(in_bounds); } //@C23
at after population:
  let ghost init = seqs::<T, N>(population@);
  let ghost dw = differential_weight;
  proof { run_starts(init, compare_candidates.log(), b0, dw, full, N as int); }
loop 2:
  n2 == num_iters, //@C23,C24
  population@.len() == population_size, init.len() == population_size, population_size >= 4,
  compare_candidates.gate(),
  b0 <= compare_candidates.log().len(),
  compare_candidates.log().len() == b0 + k2, //@C23,C24
  in_bounds(init, bounds@), //@C23
  seqs::<T, N>(population@) == pop(init, compare_candidates.log(), b0, k2 as nat), //@C23,C24
  members_ok(init, compare_candidates.log(), b0, k2 as int), //@C23,C24
  trials_ok(init, compare_candidates.log(), b0, k2 as int, dw, full, N as int), //@C23
  cover(seqs::<T, N>(population@), 0, 0, init, compare_candidates.log(), b0), //@C22
  all_cand(seqs::<T, N>(population@), init, compare_candidates.log(), b0), //@C22
loop-start 2:
  let ghost p0 = seqs::<T, N>(population@); let ghost g0 = compare_candidates.log();
loop 6:
  n6 == N, out6@.len() == k6, j < population_size, k < population_size, l < population_size,
  forall|n: int| 0 <= n < k6 ==> #[trigger] out6@[n] == p0[i as int][n] || out6@[n] == mutant(p0, j as int, k as int, l as int, n, dw), //@C23
  r < k6 ==> out6@[r as int] == mutant(p0, j as int, k as int, l as int, r as int, dw), //@C23
  full ==> forall|n: int| 0 <= n < k6 ==> #[trigger] out6@[n] == mutant(p0, j as int, k as int, l as int, n, dw), //@C23
at after x:
  proof { is_trial(p0, i as int, j as int, k as int, l as int, r as int, dw, full, x@, N as int); } //@C23
loop-end 2:
  let ghost q = seqs::<T, N>(population@); let ghost g1 = compare_candidates.log(); let ghost im = i2 as int % (population_size as int);
  let ghost y = p0[im]; let ghost w2 = g1[g0.len() as int].2; let ghost xt = g1[g0.len() as int].0;
  assert(g1 =~= g0.push((xt, y, w2)));
  assert(q =~= if w2 { p0.update(im, xt) } else { p0 });
  proof {
    step_members(init, g0, b0, i2 as nat, p0, q, xt, y, w2); //@C23,C24
    step_trials(init, g0, b0, i2 as nat, p0, (xt, y, w2), dw, full, N as int); //@C23
    duel(p0, q, 0, 0, 0, im, xt, init, g0, w2, b0); //@C22
    duel_cand(p0, q, xt, y, init, g0, w2, b0); //@C22
  }
loop 7:
  invariant
    1 <= population@.len() <= population_size, 0 <= b0, init.len() == population_size,
    compare_candidates.gate(),
    compare_candidates.log().len() >= b0 + num_iters, //@C23,C24
    compare_candidates.log().len() >= b0,
    compare_candidates.log().len() + population@.len() == b0 + num_iters + population_size, //@C24
    in_bounds(init, bounds@), //@C23
    members_ok(init, compare_candidates.log(), b0, num_iters as int), //@C23,C24
    trials_ok(init, compare_candidates.log(), b0, num_iters as int, dw, full, N as int), //@C23
    cover(seqs::<T, N>(population@), 0, 0, init, compare_candidates.log(), b0), //@C22
    all_cand(seqs::<T, N>(population@), init, compare_candidates.log(), b0), //@C22
loop-start 7:
  let ghost g7 = compare_candidates.log(); let ghost mut p9 = seqs::<T, N>(population@);
loop-before 8:
  assert(cover(seqs::<T, N>(population@), half_len as int, half_len as int, init, compare_candidates.log(), b0)) by { start_race(seqs::<T, N>(population@), half_len as int, init, compare_candidates.log(), b0); } //@C22
loop 8:
  n8 == half_len, half_len == pop_len / 2, population@.len() == pop_len, 2 <= pop_len <= population_size, 0 <= b0,
  compare_candidates.gate(),
  compare_candidates.log().len() == g7.len() + k8,
  members_ok(init, compare_candidates.log(), b0, num_iters as int), //@C23,C24
  trials_ok(init, compare_candidates.log(), b0, num_iters as int, dw, full, N as int), //@C23
  k8 > 0 && pop_len % 2 == 1 ==> population@[half_len as int]@ == population@[pop_len - 1]@, //@C22
  cover(seqs::<T, N>(population@), half_len as int, half_len + k8, init, compare_candidates.log(), b0), //@C22
  all_cand(seqs::<T, N>(population@), init, compare_candidates.log(), b0), //@C22
loop-start 8:
  let ghost p8 = seqs::<T, N>(population@); let ghost g8 = compare_candidates.log();
loop-end 8:
  let ghost q8 = seqs::<T, N>(population@); let ghost h8 = compare_candidates.log(); let ghost w8 = h8[g8.len() as int].2;
  let ghost a8 = h8[g8.len() as int].0; let ghost c8 = h8[g8.len() as int].1;
  assert(h8 =~= g8.push((a8, c8, w8)));
  assert(a8 == p8[half_len + i8] && c8 == p8[i8 as int]); //@C22
  proof {
    run_grows(init, g8, (a8, c8, w8), b0, num_iters as int, dw, full, N as int); //@C23,C24
    assert(q8[i8 as int] == if w8 { p8[half_len + i8] } else { p8[i8 as int] }); //@C22
    duel(p8, q8, half_len as int, half_len + i8, half_len + i8 + 1, i8 as int, p8[half_len + i8], init, g8, w8, b0); //@C22
    assert forall|m: int| 0 <= m < q8.len() implies exists|k: int| 0 <= k < p8.len() && #[trigger] q8[m] == #[trigger] p8[k] by { //@C22
      let pk = p8[pop_len - 1]; let pi = p8[half_len + i8]; //@C22
      assert(q8[m] == p8[m] || q8[m] == pi || q8[m] == pk); //@C22
    } //@C22
    duel_cand(p8, q8, p8[half_len + i8], p8[i8 as int], init, g8, w8, b0); //@C22
  }
loop-after 8:
  proof { p9 = seqs::<T, N>(population@); }
loop-end 7:
  assert(cover(seqs::<T, N>(population@), 0, 0, init, compare_candidates.log(), b0)) by { end_race(p9, seqs::<T, N>(population@), half_len as int, init, compare_candidates.log(), b0); } //@C22
  proof { fewer_cand(p9, seqs::<T, N>(population@), init, compare_candidates.log(), b0); } //@C22
end:
  assert(tagged(init));
  assert(population@.len() == 1);
  assert(seqs::<T, N>(population@)[0] == r_@);
  assert(compare_candidates.log().len() == b0 + num_iters + (population_size - 1)); //@C24
  assert(in_bounds(init, bounds@)); //@C23
  assert(members_ok(init, compare_candidates.log(), b0, num_iters as int)); //@C23,C24
  assert(trials_ok(init, compare_candidates.log(), b0, num_iters as int, dw, full, N as int)); //@C23
  proof { winner(seqs::<T, N>(population@), init, compare_candidates.log(), b0); fewer_cand(seqs::<T, N>(population@), seqs::<T, N>(population@), init, compare_candidates.log(), b0); } //@C22
  assert(cand(r_@, init, compare_candidates.log(), b0)); //@C22
  assert(best(r_@, init, compare_candidates.log(), b0)); //@C22

#mod optimize::test_functions
raw:
  use crate::vxf;
  // the real number a float stands for; the functions of real analysis
  pub uninterp spec fn rv(x: f32) -> real;
  pub uninterp spec fn rexp(x: real) -> real;
  pub uninterp spec fn rcos(x: real) -> real;
  pub uninterp spec fn rsin(x: real) -> real;
  pub uninterp spec fn rsqrt(x: real) -> real;
  pub uninterp spec fn rpi() -> real;
  // float operations without rounding
  pub open spec fn exact() -> bool {
    &&& <f32 as AddSpec<f32>>::obeys_add_spec() && <f32 as SubSpec<f32>>::obeys_sub_spec() && <f32 as MulSpec<f32>>::obeys_mul_spec() && <f32 as DivSpec<f32>>::obeys_div_spec() && <f32 as NegSpec>::obeys_neg_spec()
    &&& forall|a: f32, b: f32| #[trigger] <f32 as AddSpec<f32>>::add_req(a, b)
    &&& forall|a: f32, b: f32| #[trigger] <f32 as SubSpec<f32>>::sub_req(a, b)
    &&& forall|a: f32, b: f32| #[trigger] <f32 as MulSpec<f32>>::mul_req(a, b)
    &&& forall|a: f32, b: f32| #[trigger] <f32 as DivSpec<f32>>::div_req(a, b)
    &&& forall|a: f32| #[trigger] <f32 as NegSpec>::neg_req(a)
    &&& forall|a: f32, b: f32| rv(#[trigger] <f32 as AddSpec<f32>>::add_spec(a, b)) == rv(a) + rv(b)
    &&& forall|a: f32, b: f32| rv(#[trigger] <f32 as SubSpec<f32>>::sub_spec(a, b)) == rv(a) - rv(b)
    &&& forall|a: f32, b: f32| rv(#[trigger] <f32 as MulSpec<f32>>::mul_spec(a, b)) == rv(a) * rv(b)
    &&& forall|a: f32, b: f32| rv(b) != 0real ==> rv(#[trigger] <f32 as DivSpec<f32>>::div_spec(a, b)) == rv(a) / rv(b)
    &&& forall|a: f32| rv(#[trigger] <f32 as NegSpec>::neg_spec(a)) == -rv(a)
    &&& forall|a: f32| rv(#[trigger] vxf::f32_sqrt(a)) == rsqrt(rv(a))
    &&& forall|a: f32| rv(#[trigger] vxf::f32_exp(a)) == rexp(rv(a))
    &&& forall|a: f32| rv(#[trigger] vxf::f32_exp_m1(a)) == rexp(rv(a)) - 1real
    &&& forall|a: f32| rv(#[trigger] vxf::f32_cos(a)) == rcos(rv(a))
    &&& forall|a: f32| rv(#[trigger] vxf::f32_sin(a)) == rsin(rv(a))
    &&& rv(vxf::f32_pi()) == rpi() && rv(vxf::f32_e()) == rexp(1real)
    &&& rv(vxf::f32_tau()) == 2real * rpi() && rv(vxf::f32_frac_pi_2()) == rpi() / 2real
    &&& forall|a: f32| rv(#[trigger] vxf::f32_powi(a, 2)) == rv(a) * rv(a)
    &&& forall|a: f32, b: f32| rv(#[trigger] vxf::f32_hypot(a, b)) == rsqrt(rv(a) * rv(a) + rv(b) * rv(b))
    &&& forall|a: f32, b: f32, c: f32| rv(#[trigger] vxf::f32_mul_add(a, b, c)) == rv(a) * rv(b) + rv(c)
    &&& lits()
  }
  // the numbers the source mentions
  pub open spec fn lits() -> bool { $FLOATS }
  // https://en.wikipedia.org/wiki/Ackley_function
  pub open spec fn ack(x: real, y: real) -> real {
    -20real * rexp(-0.2real * rsqrt(0.5real * (x * x + y * y))) - rexp(0.5real * (rcos(2real * rpi() * x) + rcos(2real * rpi() * y))) + rexp(1real) + 20real
  }
  pub open spec fn laws() -> bool {
    &&& forall|a: real, b: real| a < b ==> #[trigger] rexp(a) < #[trigger] rexp(b)
    &&& rexp(0real) == 1real
    &&& forall|a: real| #[trigger] rcos(a) <= 1real
    &&& rcos(0real) == 1real
    &&& forall|a: real| rcos(-a) == #[trigger] rcos(a)
    &&& forall|a: real| a > 0real ==> #[trigger] rsqrt(a) > 0real
    &&& rsqrt(0real) == 0real
  }
  pub proof fn ackley_minimum(x: real, y: real)
    requires laws(),
    ensures ack(0real, 0real) == 0real, x != 0real || y != 0real ==> ack(x, y) > 0real,
  {
    assert(2real * rpi() * 0real == 0real) by (nonlinear_arith);
    assert(0real * 0real + 0real * 0real == 0real) by (nonlinear_arith);
    assert(ack(0real, 0real) == 0real);
    if x != 0real || y != 0real {
      let q = 0.5real * (x * x + y * y);
      assert(q > 0real) by (nonlinear_arith) requires x != 0real || y != 0real, q == 0.5real * (x * x + y * y);
      let s = -0.2real * rsqrt(q);
      assert(s < 0real);
      assert(rexp(s) < rexp(0real));
      let c = 0.5real * (rcos(2real * rpi() * x) + rcos(2real * rpi() * y));
      assert(c <= 1real);
      assert(rexp(c) <= rexp(1real));
    }
  }
  pub proof fn ackley_symmetry(x: real, y: real)
    requires laws(),
    ensures ack(x, y) == ack(y, x), ack(-x, y) == ack(x, y), ack(x, -y) == ack(x, y),
  {
    assert((-x) * (-x) == x * x && (-y) * (-y) == y * y) by (nonlinear_arith);
    assert(2real * rpi() * (-x) == -(2real * rpi() * x)) by (nonlinear_arith);
    assert(2real * rpi() * (-y) == -(2real * rpi() * y)) by (nonlinear_arith);
  }
#fn ackley
negcalls: yes
spec:
  requires exact(),
  ensures rv(r) == ack(rv(x), rv(y)),
