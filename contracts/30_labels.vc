//@ spec
// ------------------------------------------------------------ order of strings and labels
pub proof fn chars_cmp_sym(a: Seq<char>, b: Seq<char>)
    ensures -1 <= chars_cmp(a, b) <= 1, chars_cmp(a, b) == -chars_cmp(b, a),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] as u32 as int == b[0] as u32 as int { chars_cmp_sym(a.drop_first(), b.drop_first()); }
}
pub proof fn chars_cmp_eq(a: Seq<char>, b: Seq<char>)
    ensures chars_cmp(a, b) == 0 <==> a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        if a[0] as u32 as int == b[0] as u32 as int {
            assert(a[0] == b[0]);
            chars_cmp_eq(a.drop_first(), b.drop_first());
            if chars_cmp(a, b) == 0 {
                assert(a =~= seq![a[0]] + a.drop_first());
                assert(b =~= seq![b[0]] + b.drop_first());
            }
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn chars_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires chars_cmp(a, b) <= 0, chars_cmp(b, c) <= 0,
    ensures chars_cmp(a, c) <= 0, chars_cmp(a, b) < 0 || chars_cmp(b, c) < 0 ==> chars_cmp(a, c) < 0,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] as u32 as int == b[0] as u32 as int && b[0] as u32 as int == c[0] as u32 as int {
            chars_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first());
        }
    }
}
pub open spec fn lv_cmp(a: LV, b: LV) -> int { let c = chars_cmp(a.0, b.0); if c != 0 { c } else { chars_cmp(a.1, b.1) } }
pub proof fn lv_cmp_facts(a: LV, b: LV)
    ensures -1 <= lv_cmp(a, b) <= 1, lv_cmp(a, b) == -lv_cmp(b, a), lv_cmp(a, b) == 0 <==> a == b,
{
    chars_cmp_sym(a.0, b.0); chars_cmp_sym(a.1, b.1); chars_cmp_eq(a.0, b.0); chars_cmp_eq(a.1, b.1);
}
pub proof fn lv_cmp_trans(a: LV, b: LV, c: LV)
    requires lv_cmp(a, b) <= 0, lv_cmp(b, c) <= 0,
    ensures lv_cmp(a, c) <= 0, lv_cmp(a, b) < 0 || lv_cmp(b, c) < 0 ==> lv_cmp(a, c) < 0,
{
    lv_cmp_facts(a, b); lv_cmp_facts(b, c); lv_cmp_facts(a, c);
    chars_cmp_sym(a.0, b.0); chars_cmp_sym(b.0, c.0); chars_cmp_eq(a.0, b.0); chars_cmp_eq(b.0, c.0);
    chars_cmp_trans(a.0, b.0, c.0);
    if a.0 == b.0 && b.0 == c.0 { chars_cmp_trans(a.1, b.1, c.1); }
}
pub proof fn label_cmp_is(a: crate::label::Label, b: crate::label::Label)
    ensures a.dcmp(&b) == lv_cmp(lview(a), lview(b)),
{}
pub proof fn label_preorder(s: Seq<crate::label::Label>)
    ensures preorder(ord_of::<crate::label::Label>(), s),
{
    let c = ord_of::<crate::label::Label>();
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (#[trigger] c(s[i], s[j])) == lv_cmp(lview(s[i]), lview(s[j])) by { label_cmp_is(s[i], s[j]); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (#[trigger] c(s[i], s[j]) <= 0 || c(s[j], s[i]) <= 0)
        && (c(s[i], s[j]) > 0 ==> c(s[j], s[i]) < 0) && (c(s[i], s[j]) == 0 ==> c(s[j], s[i]) == 0) by { lv_cmp_facts(lview(s[i]), lview(s[j])); }
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[j]) <= 0 && #[trigger] c(s[j], s[k]) <= 0
        implies c(s[i], s[k]) <= 0 by { lv_cmp_trans(lview(s[i]), lview(s[j]), lview(s[k])); }
}
// ------------------------------------------------------------ the label map
/// at most one entry per name, in ascending name order
pub open spec fn lab_ok(s: Seq<LV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> chars_cmp(#[trigger] s[i].0, #[trigger] s[j].0) < 0 }
pub open spec fn has(s: Seq<LV>, x: LV) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
/// b is the map a with `name` set to `value`
pub open spec fn is_put(a: Seq<LV>, b: Seq<LV>, name: Seq<char>, value: Seq<char>) -> bool {
    lab_ok(b) && forall|x: LV| #[trigger] has(b, x) <==> (if x.0 == name { x.1 == value } else { has(a, x) })
}
/// b is the map a without `name`
pub open spec fn is_del(a: Seq<LV>, b: Seq<LV>, name: Seq<char>) -> bool {
    lab_ok(b) && forall|x: LV| #[trigger] has(b, x) <==> x.0 != name && has(a, x)
}
pub open spec fn without(s: Seq<LV>, name: Seq<char>) -> Seq<LV>
    decreases s.len()
{
    if s.len() == 0 { s } else { let r = without(s.drop_last(), name); if s.last().0 == name { r } else { r.push(s.last()) } }
}
pub proof fn has_push(s: Seq<LV>, y: LV, x: LV)
    ensures has(s.push(y), x) <==> has(s, x) || x == y,
{
    let p = s.push(y);
    if has(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x; assert(p[i] == x); }
    if x == y { assert(p[s.len() as int] == x); }
    if has(p, x) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == x; if i < s.len() { assert(s[i] == x); } }
}
pub proof fn without_has(s: Seq<LV>, name: Seq<char>)
    ensures forall|x: LV| #[trigger] has(without(s, name), x) <==> x.0 != name && has(s, x), lab_ok(s) ==> lab_ok(without(s, name)),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = without(s.drop_last(), name);
        without_has(s.drop_last(), name);
        assert(s =~= s.drop_last().push(s.last()));
        assert forall|x: LV| #[trigger] has(without(s, name), x) <==> x.0 != name && has(s, x) by {
            has_push(s.drop_last(), s.last(), x); has_push(r, s.last(), x);
        }
        if lab_ok(s) {
            assert(lab_ok(s.drop_last())) by {
                assert forall|i: int, j: int| 0 <= i < j < s.drop_last().len() implies chars_cmp(#[trigger] s.drop_last()[i].0, #[trigger] s.drop_last()[j].0) < 0 by { assert(s[i] == s.drop_last()[i]); assert(s[j] == s.drop_last()[j]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < without(s, name).len() implies chars_cmp(#[trigger] without(s, name)[i].0, #[trigger] without(s, name)[j].0) < 0 by {
                if j < r.len() { assert(r[i] == without(s, name)[i]); assert(r[j] == without(s, name)[j]); }
                else {
                    assert(has(r, r[i]));
                    assert(has(s.drop_last(), r[i]));
                    let k = choose|k: int| 0 <= k < s.drop_last().len() && #[trigger] s.drop_last()[k] == r[i];
                    assert(s[k] == r[i]); assert(s[s.len() - 1] == s.last());
                    assert(chars_cmp(s[k].0, s[s.len() - 1].0) < 0);
                }
            }
        }
    } else {
        assert forall|x: LV| #[trigger] has(without(s, name), x) <==> x.0 != name && has(s, x) by {}
    }
}
/// sorting the map without `name` together with the new entry gives the updated map
pub proof fn put_perm(a: Seq<LV>, lu: Seq<LV>, b: Seq<LV>, p: Seq<int>, name: Seq<char>, value: Seq<char>)
    requires
        lab_ok(a),
        lu == without(a, name).push((name, value)),
        is_perm(p, lu.len() as int), b.len() == lu.len(),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == lu[p[i]],
        forall|i: int, j: int| 0 <= i < j < b.len() ==> lv_cmp(#[trigger] b[i], #[trigger] b[j]) <= 0,
    ensures is_put(a, b, name, value),
{
    let wo = without(a, name);
    without_has(a, name);
    perm_onto(p, lu.len() as int);
    // names of lu are pairwise different
    assert forall|i: int, j: int| #![auto] 0 <= i < lu.len() && 0 <= j < lu.len() && i != j implies lu[i].0 != lu[j].0 by {
        if i < wo.len() { assert(lu[i] == wo[i]); assert(has(wo, wo[i])); }
        if j < wo.len() { assert(lu[j] == wo[j]); assert(has(wo, wo[j])); }
        if i < wo.len() && j < wo.len() {
            if i < j { assert(chars_cmp(wo[i].0, wo[j].0) < 0); } else { assert(chars_cmp(wo[j].0, wo[i].0) < 0); } chars_cmp_eq(wo[i].0, wo[j].0); chars_cmp_sym(wo[i].0, wo[j].0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies chars_cmp(#[trigger] b[i].0, #[trigger] b[j].0) < 0 by {
        assert(lv_cmp(b[i], b[j]) <= 0);
        assert(p[i] != p[j]);
        assert(lu[p[i]].0 != lu[p[j]].0);
        chars_cmp_eq(b[i].0, b[j].0); chars_cmp_sym(b[i].0, b[j].0);
    }
    assert forall|x: LV| #[trigger] has(b, x) <==> (if x.0 == name { x.1 == value } else { has(a, x) }) by {
        has_push(wo, (name, value), x);
        if has(b, x) {
            let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x;
            assert(lu[p[i]] == x);
            assert(has(lu, x));
        }
        if has(lu, x) {
            let j = choose|j: int| 0 <= j < lu.len() && #[trigger] lu[j] == x;
            assert(hit(p, j));
            let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j;
            assert(b[i] == x);
            assert(has(b, x));
        }
        assert(has(wo, x) <==> x.0 != name && has(a, x));
    }
}
pub proof fn put_sorted(a: Seq<LV>, u: Seq<crate::label::Label>, v: Seq<crate::label::Label>, name: Seq<char>, value: Seq<char>)
    requires
        lab_ok(a),
        lviews(u) == without(a, name).push((name, value)),
        sorted_from(u, v, ord_of::<crate::label::Label>()),
    ensures is_put(a, lviews(v), name, value),
{
    let c = ord_of::<crate::label::Label>();
    let p = sort_perm(u, c);
    let b = lviews(v);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] b[i] == lviews(u)[p[i]] by { assert(v[i] == u[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies lv_cmp(#[trigger] b[i], #[trigger] b[j]) <= 0 by {
        assert(c(v[i], v[j]) <= 0);
        label_cmp_is(v[i], v[j]);
    }
    put_perm(a, lviews(u), b, p, name, value);
}
pub open spec fn hit(p: Seq<int>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
/// a permutation reaches every position
pub proof fn perm_onto(p: Seq<int>, n: int)
    requires is_perm(p, n),
    ensures forall|j: int| #![trigger hit(p, j)] 0 <= j < n ==> hit(p, j),
{
    assert forall|j: int| #![trigger hit(p, j)] 0 <= j < n implies hit(p, j) by {
        if !hit(p, j) {
            // pigeonhole: p would be an injection of 0..n into 0..n without j
            let s = p.to_set();
            p.unique_seq_to_set();
            let full = vstd::set_lib::set_int_range(0, n);
            vstd::set_lib::lemma_int_range(0, n);
            assert(s.subset_of(full.remove(j))) by {
                assert forall|x: int| #[trigger] s.contains(x) implies full.remove(j).contains(x) by {
                    let i = choose|i: int| 0 <= i < p.len() && p[i] == x;
                }
            }
            vstd::set_lib::lemma_len_subset(s, full.remove(j));
        }
    }
}
// ------------------------------------------------------------ escaping
/// what one character of a label value (q) or help text (!q) is written as
pub open spec fn esc1(c: char, q: bool) -> Seq<char> {
    if c == '\\' { seq!['\\', '\\'] } else if c == '\n' { seq!['\\', 'n'] } else if q && c == '"' { seq!['\\', '"'] } else { seq![c] }
}
pub open spec fn esc(s: Seq<char>, q: bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last(), q) + esc1(s.last(), q) }
}
/// one unit of the decoder: None at the end, else the character and how many were read
pub open spec fn unesc(t: Seq<char>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() }
    else if t[0] == '\\' && t.len() >= 2 { seq![if t[1] == 'n' { '\n' } else { t[1] }] + unesc(t.skip(2)) }
    else { seq![t[0]] + unesc(t.skip(1)) }
}
/// t contains no raw line feed, and a double quote (q) only right after a backslash which escapes it
pub open spec fn clean(t: Seq<char>, q: bool) -> bool
    decreases t.len()
{
    if t.len() == 0 { true }
    else if t[0] == '\\' { t.len() >= 2 && t[1] != '\n' && clean(t.skip(2), q) }
    else { t[0] != '\n' && (q ==> t[0] != '"') && clean(t.skip(1), q) }
}
pub proof fn esc_front(s: Seq<char>, q: bool)
    requires s.len() > 0,
    ensures esc(s, q) == esc1(s[0], q) + esc(s.skip(1), q),
    decreases s.len(),
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(s.skip(1) =~= Seq::<char>::empty());
        assert(esc(s.drop_last(), q) =~= Seq::<char>::empty());
        assert(esc(s.skip(1), q) =~= Seq::<char>::empty());
        assert(esc(s, q) =~= esc1(s[0], q) + esc(s.skip(1), q));
    } else {
        esc_front(s.drop_last(), q);
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(s.drop_last()[0] == s[0]);
        assert(esc(s, q) =~= esc1(s[0], q) + (esc(s.skip(1).drop_last(), q) + esc1(s.last(), q)));
    }
}
/// Decoding gives back the text, and the encoding is clean: C04
pub proof fn esc_reversible(s: Seq<char>, q: bool)
    ensures unesc(esc(s, q)) == s, clean(esc(s, q), q),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(unesc(esc(s, q)) =~= s);
    } else {
        esc_front(s, q);
        esc_reversible(s.skip(1), q);
        let t = esc(s, q);
        let e = esc1(s[0], q);
        let r = esc(s.skip(1), q);
        assert(t == e + r);
        assert(s =~= seq![s[0]] + s.skip(1));
        if e.len() == 2 {
            assert(t.skip(2) =~= r);
            assert(t[0] == '\\' && t[1] == e[1]);
            assert(unesc(t) =~= seq![s[0]] + unesc(r));
        } else {
            assert(t.skip(1) =~= r);
            assert(t[0] == s[0]);
            assert(unesc(t) =~= seq![s[0]] + unesc(r));
        }
    }
}
pub proof fn esc_step(s: Seq<char>, i: int, q: bool)
    requires 0 <= i < s.len(),
    ensures esc(s.take(i + 1), q) == esc(s.take(i), q) + esc1(s[i], q),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub open spec fn label_text(l: LV) -> Seq<char> { l.0 + "=\""@ + esc(l.1, true) + "\""@ }
/// the labels, each preceded by `sep` except that the first has none
pub open spec fn joined(s: Seq<LV>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.len() == 1 { label_text(s[0]) }
    else { joined(s.drop_last()) + ","@ + label_text(s.last()) }
}
pub open spec fn labels_text(s: Seq<LV>) -> Seq<char> { "{"@ + joined(s) + "}"@ }

//@ fn label::Label::fmt(f) props=C04,C05
    ensures wrote(*old(f), *final(f), r, label_text(lview(*self))),
//@ loop 0 chars
    __s0@ == self.value@, f.sure() == old(f).sure(),
    f@ =~= old(f)@ + (self.name@ + "=\""@ + esc(self.value@.take(__i0 as int), true)),
//@ loop 0 body
    proof { esc_step(self.value@, __i0 - 1, true); }
//@ loop 0 post
    proof { assert(self.value@.take(self.value@.len() as int) =~= self.value@); }
//@ fn label::Labels::new(labels) props=C03,C18
    ensures !old(w).lab.dom().contains(r.0.id()),
        *final(w) == (World { lab: old(w).lab.insert(r.0.id(), lviews(labels@)), lev: old(w).lev.insert(r.0.id(), Seq::empty()), ..*old(w) }),
//@ fn label::Labels::len() props=C03,C04,C05
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == old(w).lab[self.0.id()].len(),
//@ fn label::Labels::is_empty() props=C03,C04,C05
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == (old(w).lab[self.0.id()].len() == 0),
//@ fn label::Labels::iter() props=C03,C04,C05,C14
    ensures same(*old(w), *final(w)), r.inner.wf(), r.inner.pos == 0, old(w).quiet ==> lviews(r.inner.s@) == old(w).lab[self.0.id()],
//@ fn label::Iter::next() props=C03,C04,C05,C14
    requires old(self).inner.wf(),
    ensures final(self).inner.wf(), final(self).inner.s == old(self).inner.s,
        match r {
            Some(x) => old(self).inner.pos < old(self).inner.s@.len() && *x == old(self).inner.s@[old(self).inner.pos as int] && final(self).inner.pos == old(self).inner.pos + 1,
            None => final(self).inner.pos == old(self).inner.pos && old(self).inner.pos == old(self).inner.s@.len(),
        },
//@ fn label::Labels::get(name) props=C03
    ensures same(*old(w), *final(w)),
        old(w).quiet ==> match r {
            Some(l) => has(old(w).lab[self.0.id()], lview(*l)) && l.name@ == name@,
            None => forall|x: LV| #[trigger] has(old(w).lab[self.0.id()], x) ==> x.0 != name@,
        },
//@ loop 0 user
    *w == *old(w), __s0.inner.wf(), old(w).quiet ==> lviews(__s0.inner.s@) == old(w).lab[self.0.id()],
    match __acc0 {
        Some(l) => has(lviews(__s0.inner.s@), lview(*l)) && l.name@ == name@,
        None => forall|i: int| 0 <= i < __s0.inner.pos ==> (#[trigger] lviews(__s0.inner.s@)[i]).0 != name@,
    },
  ensures
    __acc0 is None ==> __s0.inner.pos == __s0.inner.s@.len(),
//@ loop 0 body
    proof { assert(lviews(__s0.inner.s@)[__s0.inner.pos - 1] == lview(*__x0)); }
//@ fn label::Labels::fmt(f) props=C04,C05
    ensures same(*old(w), *final(w)), wrote_some(*old(f), *final(f), r), old(w).quiet ==> wrote(*old(f), *final(f), r, labels_text(old(w).lab[self.0.id()])),
//@ loop 0 user
    *w == *old(w), __s0.inner.wf(), old(w).quiet ==> lviews(__s0.inner.s@) == old(w).lab[self.0.id()],
    __n0 == __s0.inner.pos,
    f.sure() == old(f).sure(),
    f@ =~= old(f)@ + ("{"@ + joined(lviews(__s0.inner.s@).take(__s0.inner.pos as int))),
  ensures
    __s0.inner.pos == __s0.inner.s@.len(),
//@ loop 0 body
    proof {
        let t = lviews(__s0.inner.s@);
        let p = __s0.inner.pos as int;
        assert(t[p - 1] == lview(*__x0));
        assert(t.take(p).drop_last() =~= t.take(p - 1));
        assert(t.take(p).last() == t[p - 1]);
        if p == 1 { assert(t.take(0) =~= Seq::<LV>::empty()); assert(t.take(1)[0] == t[0]); }
    }
//@ loop 0 post
    proof { let t = lviews(__s0.inner.s@); assert(t.take(t.len() as int) =~= t); }
//@ fn label::LabelsMut::new(labels, reserved) props=C02,C03
    ensures r.inner == labels, ov(r.reserved) == ov(reserved),
//@ fn label::LabelsMut::insert(name, value) props=C02,C03,C07
    ensures
        final(self).inner == old(self).inner,
        r is Ok <==> good_label(name@) && ov(old(self).reserved) != Some(name@),
        r is Err ==> r->Err_0 is InvalidInput && same(*old(w), *final(w)),
        r is Ok ==> ({
            let id = old(self).inner.0.id();
            let a = final(w).lev[id].last().0;
            let b = final(w).lev[id].last().1;
            lstep(*old(w), *final(w), id, b) && (lab_ok(a) ==> is_put(a, b, name@, value@))
        }),
//@ loop 0 owned
    lviews(labels@) =~= without(lviews(__g0).take(__s0.pos()), label.name@),
//@ loop 0 body
    proof {
        let t = lviews(__g0);
        let p = __s0.pos();
        assert(t.take(p).drop_last() =~= t.take(p - 1));
        assert(t.take(p).last() == lview(__x0));
    }
//@ loop 0 post
    proof {
        let t = lviews(__g0);
        assert(t.take(t.len() as int) =~= t);
    }
//@ sort 0
    proof { label_preorder($v@); }
//@ sorted 0
    proof {
        assert(lviews($u) =~= without(lviews(__snap0@), label.name@).push((label.name@, label.value@)));
        if lab_ok(lviews(__snap0@)) { put_sorted(lviews(__snap0@), $u, $v@, label.name@, label.value@); }
    }
//@ fn label::LabelsMut::remove(name) props=C03,C07
    ensures
        final(self).inner == old(self).inner,
        ({
            let id = old(self).inner.0.id();
            let a = final(w).lev[id].last().0;
            let b = final(w).lev[id].last().1;
            lstep(*old(w), *final(w), id, b) && (lab_ok(a) ==> is_del(a, b, name@))
        }),
//@ loop 0 slice
    lviews(__acc0@) =~= without(lviews(__s0@).take(__i0 as int), name@),
//@ loop 0 body
    proof {
        let t = lviews(__s0@);
        assert(t.take(__i0 as int).drop_last() =~= t.take(__i0 - 1));
        assert(t.take(__i0 as int).last() == lview(*__x0));
    }
//@ loop 0 post
    proof {
        let t = lviews(__s0@);
        assert(t.take(t.len() as int) =~= t);
        without_has(t, name@);
    }
//@ fn label::LabelsMut::clear() props=C03,C07
    ensures final(self).inner == old(self).inner, lstep(*old(w), *final(w), old(self).inner.0.id(), Seq::empty()),
//@ entry
    proof { assert(lviews(Seq::empty()) =~= Seq::empty()); }
//@ fn label::LabelsMut::deref() props=C03
    ensures *r == *self.inner,
