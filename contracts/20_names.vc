//@ spec
// ------------------------------------------------------------ names
/// [a-zA-Z_]
pub open spec fn label_start(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' }
/// [a-zA-Z_:]
pub open spec fn name_start(c: char) -> bool { label_start(c) || c == ':' }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
/// [a-zA-Z_:][a-zA-Z0-9_:]*
pub open spec fn good_name(s: Seq<char>) -> bool {
    s.len() > 0 && name_start(s[0]) && forall|i: int| 1 <= i < s.len() ==> name_start(#[trigger] s[i]) || digit(s[i])
}
/// [a-zA-Z_][a-zA-Z0-9_]*, not beginning with two underscores
pub open spec fn good_label(s: Seq<char>) -> bool {
    &&& s.len() > 0 && label_start(s[0]) && forall|i: int| 1 <= i < s.len() ==> label_start(#[trigger] s[i]) || digit(s[i])
    &&& !(s.len() >= 2 && s[0] == '_' && s[1] == '_')
}
pub open spec fn ov(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn good_opt(o: Option<Seq<char>>) -> bool { match o { Some(s) => good_name(s), None => true } }
pub open spec fn prefix_text(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s + seq!['_'], None => Seq::empty() } }
/// namespace_subsystem_name with the absent parts left out
pub open spec fn name_text(n: crate::metric::MetricName) -> Seq<char> {
    prefix_text(sv(n.namespace)) + prefix_text(sv(n.subsystem)) + n.name@
}
/// the name parts a metric name stands for
pub open spec fn nparts(n: crate::metric::MetricName) -> (Option<Seq<char>>, Option<Seq<char>>, Seq<char>) { (sv(n.namespace), sv(n.subsystem), n.name@) }

//@ fn metric::MetricName::namespace() props=C01
    ensures ov(r) == sv(self.namespace),
//@ fn metric::MetricName::subsystem() props=C01
    ensures ov(r) == sv(self.subsystem),
//@ fn metric::MetricName::name() props=C01
    ensures r@ == self.name@,
//@ fn metric::MetricName::validate_name(name) props=C01
    ensures r is Ok <==> good_name(name@), r is Err ==> r->Err_0 is InvalidInput,
//@ loop 0 chars
    __s0@ == name@, 1 <= __i0, name_start(name@[0]),
    forall|j: int| 1 <= j < __i0 ==> name_start(#[trigger] name@[j]) || digit(name@[j]),
//@ fn metric::MetricName::new(namespace, subsystem, name) props=C01,C18
    ensures
        r is Ok <==> good_opt(ov(namespace)) && good_opt(ov(subsystem)) && good_name(name@),
        match r { Ok(n) => nparts(n) == (ov(namespace), ov(subsystem), name@), Err(e) => e is InvalidInput },
//@ fn metric::MetricName::fmt(f) props=C01,C05
    ensures wrote(*old(f), *final(f), r, name_text(*self)),
//@ fn label::Label::name() props=C02,C03,C04
    ensures r@ == self.name@,
//@ fn label::Label::value() props=C02,C04
    ensures r@ == self.value@,
//@ fn label::Label::validate_name(name) props=C02
    ensures r is Ok <==> good_label(name@), r is Err ==> r->Err_0 is InvalidInput,
//@ loop 0 chars
    __s0@ == name@, 1 <= __i0, label_start(name@[0]), !(name@.len() >= 2 && name@[0] == '_' && name@[1] == '_'),
    forall|j: int| 1 <= j < __i0 ==> label_start(#[trigger] name@[j]) || digit(name@[j]),
//@ fn label::Label::new(name, value) props=C02,C03,C18
    ensures
        r is Ok <==> good_label(name@),
        match r { Ok(l) => l.name@ == name@ && l.value@ == value@, Err(e) => e is InvalidInput },
