//@include prelude.vrs
verus! {
//@flag xfor
//@method fmt => x_fmt
//@method iter => x_iter
//@rename IndexMap => XIndexMap
//@include std_more.inc
//@include collections.inc
//@include serde.inc
//@include serde_ext.inc
// ------------------------------------------------------------ durations (their texts: P01)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { s: u64 }
pub struct DurationOption(pub Option<Duration>);
/// null is no duration; anything else is read as `duration` does
pub uninterp spec fn dur_rd(n: XNode) -> Option<DurationOption>;
pub uninterp spec fn duration_option_node(d: Option<Duration>) -> XNode;
impl XDes for DurationOption { open spec fn rd(n: XNode) -> Option<DurationOption> { dur_rd(n) } #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<DurationOption, XErr>) { unimplemented!() } }
impl XDes for u64 { uninterp spec fn rd(n: XNode) -> Option<u64>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<u64, XErr>) { unimplemented!() } }
impl XSer for u64 { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
// ------------------------------------------------------------ the `test` entry
//@type src/service/healthcheck.rs :: Test
//@type src/service/healthcheck.rs :: Healthcheck
//@serde src/service/healthcheck.rs :: TestKind | de
//@serde src/service/healthcheck.rs :: Field | de
//@type src/service/healthcheck.rs :: DisableOrTest
//@type src/service/healthcheck.rs :: Visitor
//@fn src/service/healthcheck.rs :: <Serialize for Test>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { test_node(*self) }
//@loop 0
    invariant __o0.rest().len() == it0.index(), it0.index() <= it0.seq().len(), it0.seq().len() == test@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == test@[i], forall|i: int| 0 <= i < it0.index() ==> str_view(#[trigger] __o0.rest()[i]) == test@[i]@,
//@proof before serializer.collect_seq
    broadcast use lemma_write_cat, lemma_write_one, lemma_write_texts;
//@end
pub open spec fn test_node(t: Test) -> XNode {
    match t { Test::Command(v) => XNode::List(seq![XNode::Text("CMD"@)] + write_all(v@)), Test::ShellCommand(s) => XNode::Text(s@) }
}
//@serde src/service/healthcheck.rs :: Command | ser
pub open spec fn str_view(s: &str) -> Seq<char> { s@ }
/// what a `test` entry makes of `disable` and `test`
pub open spec fn test_rd(n: XNode, disable: Option<bool>, test: Option<Test>) -> Option<(Option<bool>, Option<Test>)> {
    match n {
        XNode::Text(s) => Some((disable, Some(Test::ShellCommand(text_of(s))))),
        XNode::List(l) => {
            if l.len() == 0 { None }
            else if l[0] == XNode::Text("CMD"@) { if all_read::<String>(l.skip(1)) { Some((disable, Some(Test::Command(vec_of(read_all::<String>(l.skip(1))))))) } else { None } }
            else if l[0] == XNode::Text("CMD-SHELL"@) { if l.len() == 2 && String::rd(l[1]) is Some { Some((disable, Some(Test::ShellCommand(String::rd(l[1])->0)))) } else { None } }
            else if l[0] == XNode::Text("NONE"@) { if l.len() == 1 && disable is None { Some((Some(true), test)) } else { None } }
            else { None }
        }
        _ => None,
    }
}
impl<'a> DisableOrTest<'a> {
    #[verifier::prophetic]
    pub open spec fn post(self, n: XNode, ok: bool) -> bool {
        match test_rd(n, *self.disable, *self.test) { Some((d, t)) => ok && *final(self.disable) == d && *final(self.test) == t, None => !ok }
    }
}
impl XInto<Test> for String {
    open spec fn x_into_post(self, u: Test) -> bool { u == Test::ShellCommand(self) }
    fn x_into(self) -> (u: Test) { Test::from_string(self) }
}
//@fn src/service/healthcheck.rs :: <From<String> for Test>::from | as=from_string
    ensures r == Test::ShellCommand(value)
//@end
//@fn src/service/healthcheck.rs :: <Visitor for DisableOrTest>::visit_string | as=visit_string | subst=E:XErr | gen=<'a> | self=DisableOrTest<'a> | retty=Result<(), XErr>
    ensures self.post(XNode::Text(v@), r is Ok)
//@proof start
    broadcast use axiom_text_of_string;
//@end
//@fn src/service/healthcheck.rs :: <Visitor for DisableOrTest>::visit_str | as=visit_str | subst=E:XErr | gen=<'a> | self=DisableOrTest<'a> | retty=Result<(), XErr>
    ensures self.post(XNode::Text(v@), r is Ok)
//@end
//@fn src/service/healthcheck.rs :: <Visitor for DisableOrTest>::visit_seq | as=visit_seq | subst=A:XSeqAccess | gen=<'a> | self=DisableOrTest<'a> | retty=Result<(), XErr>
    ensures self.post(XNode::List(seq.rest()), r is Ok)
//@proof start
    broadcast use axiom_vec_of, axiom_vec_of_vec;
    proof {
        reveal_strlit("CMD"); reveal_strlit("CMD-SHELL"); reveal_strlit("NONE");
        assert("CMD"@.len() != "CMD-SHELL"@.len() && "CMD"@.len() != "NONE"@.len() && "CMD-SHELL"@.len() != "NONE"@.len());
    }
//@end
/// serde calls the `visit_…` that fits the document; those not written are errors (trusted)
impl XDe {
    #[verifier::external_body]
    pub fn deserialize_any<'a>(self, v: DisableOrTest<'a>) -> (r: Result<(), XErr>) ensures v.post(self@, r is Ok) { unimplemented!() }
}
//@fn src/service/healthcheck.rs :: <DeserializeSeed for DisableOrTest>::deserialize | as=seed_deserialize | subst=D:XDe | gen=<'a> | self=DisableOrTest<'a> | retty=Result<(), XErr>
    ensures self.post(deserializer@, r is Ok)
//@end
impl XMapAccess {
    /// `next_value_seed` hands the value to the seed's `deserialize` (trusted)
    #[verifier::external_body]
    pub fn next_value_seed<'a>(&mut self, seed: DisableOrTest<'a>) -> (r: Result<(), XErr>)
        requires old(self).pending() is Some
        ensures final(self).rest() == old(self).rest(), final(self).pending() is None, seed.post(old(self).pending()->0, r is Ok)
    { unimplemented!() }
}
//@fn src/service/healthcheck.rs :: check_duplicate | subst=E:XErr | retty=Result<(), XErr>
    ensures r is Ok <==> *option is None
//@end
pub struct Hc { pub disable: Option<bool>, pub c: HcCommand }
pub struct HcCommand {
    pub test: Option<Test>, pub interval: Option<Duration>, pub timeout: Option<Duration>, pub retries: Option<u64>,
    pub start_period: Option<Duration>, pub start_interval: Option<Duration>, pub ext: Seq<(ExtensionKey, YamlValue)>,
}
pub open spec fn hc_none() -> HcCommand { HcCommand { test: None, interval: None, timeout: None, retries: None, start_period: None, start_interval: None, ext: seq![] } }
pub open spec fn hc_empty(c: HcCommand) -> bool { c.test is None && c.interval is None && c.timeout is None && c.retries is None && c.start_period is None && c.start_interval is None && c.ext.len() == 0 }
pub open spec fn dur_step(old: Option<Duration>, v: XNode) -> Option<Option<Duration>> { if old is Some { None } else { match dur_rd(v) { Some(d) => Some(d.0), None => None } } }
/// what one more entry makes of what was read so far
pub open spec fn hc_step(h: Hc, k: Seq<char>, v: XNode) -> Option<Hc> {
    if k == "disable"@ { match (h.disable, bool::rd(v)) { (None, Some(b)) => Some(Hc { disable: Some(b), ..h }), _ => None } }
    else if k == "test"@ { if h.c.test is Some { None } else { match test_rd(v, h.disable, h.c.test) { Some((d, t)) => Some(Hc { disable: d, c: HcCommand { test: t, ..h.c } }), None => None } } }
    else if k == "interval"@ { match dur_step(h.c.interval, v) { Some(d) => Some(Hc { c: HcCommand { interval: d, ..h.c }, ..h }), None => None } }
    else if k == "timeout"@ { match dur_step(h.c.timeout, v) { Some(d) => Some(Hc { c: HcCommand { timeout: d, ..h.c }, ..h }), None => None } }
    else if k == "retries"@ { match (h.c.retries, u64::rd(v)) { (None, Some(n)) => Some(Hc { c: HcCommand { retries: Some(n), ..h.c }, ..h }), _ => None } }
    else if k == "start_period"@ { match dur_step(h.c.start_period, v) { Some(d) => Some(Hc { c: HcCommand { start_period: d, ..h.c }, ..h }), None => None } }
    else if k == "start_interval"@ { match dur_step(h.c.start_interval, v) { Some(d) => Some(Hc { c: HcCommand { start_interval: d, ..h.c }, ..h }), None => None } }
    else {
        match (ExtensionKey::rd(XNode::Text(k)), YamlValue::rd(v)) {
            (Some(e), Some(y)) => if ext_has(h.c.ext, e.key()) { None } else { Some(Hc { c: HcCommand { ext: h.c.ext.push((e, y)), ..h.c }, ..h }) },
            _ => None,
        }
    }
}
/// the first `n` entries read after `h`
pub open spec fn hc_run(h: Option<Hc>, m: Seq<Entry>, n: nat) -> Option<Hc>
    decreases n
{
    if n == 0 { h }
    else { match hc_run(h, m, (n - 1) as nat) { None => None, Some(h) => hc_step(h, m[n - 1].0, m[n - 1].1) } }
}
pub open spec fn hc_init() -> Option<Hc> { Some(Hc { disable: None, c: hc_none() }) }
pub open spec fn hc_fold(m: Seq<Entry>, n: nat) -> Option<Hc> { hc_run(hc_init(), m, n) }
pub proof fn lemma_stuck(h: Option<Hc>, m: Seq<Entry>, i: nat, n: nat)
    requires i <= n <= m.len(), hc_run(h, m, i) is None,
    ensures hc_run(h, m, n) is None,
    decreases n
{ if i < n { lemma_stuck(h, m, i, (n - 1) as nat); } }
pub proof fn lemma_cat(h: Option<Hc>, a: Seq<Entry>, b: Seq<Entry>, n: nat)
    requires n <= b.len()
    ensures hc_run(h, a + b, (a.len() + n) as nat) == hc_run(hc_run(h, a, a.len()), b, n)
    decreases n
{
    if n == 0 { lemma_prefix(h, a, b, a.len()); }
    else { lemma_cat(h, a, b, (n - 1) as nat); assert((a + b)[a.len() + n - 1] == b[n - 1]); }
}
pub proof fn lemma_prefix(h: Option<Hc>, a: Seq<Entry>, b: Seq<Entry>, n: nat)
    requires n <= a.len()
    ensures hc_run(h, a + b, n) == hc_run(h, a, n)
    decreases n
{ if n > 0 { lemma_prefix(h, a, b, (n - 1) as nat); } }
pub open spec fn command_view(c: Command) -> HcCommand { HcCommand { test: c.test, interval: c.interval, timeout: c.timeout, retries: c.retries, start_period: c.start_period, start_interval: c.start_interval, ext: c.extensions.entries() } }
/// the whole document: disabled and nothing else, or a command
pub open spec fn hc_post(m: Seq<Entry>, r: Result<Healthcheck, XErr>) -> bool {
    match hc_fold(m, m.len()) {
        None => r is Err,
        Some(h) => if h.disable == Some(true) { if hc_empty(h.c) { r == Ok::<Healthcheck, XErr>(Healthcheck::Disable) } else { r is Err } }
            else { match r { Ok(Healthcheck::Command(c)) => command_view(c) == h.c, _ => false } },
    }
}
//@fn src/service/healthcheck.rs :: <Visitor for Visitor>::visit_map | as=visit_map | subst=A:XMapAccess | retty=Result<Healthcheck, XErr> | attr=verifier::loop_isolation(false)
    requires map.pending() is None
    ensures hc_post(map.rest(), r)
//@loop 0
        invariant
            map.pending() is None, 0 <= gi <= gm.len(), gi == gm.len() - map.rest().len(), map.rest() == gm.skip(gi),
            hc_fold(gm, gi as nat) == Some(Hc { disable, c: HcCommand { test, interval, timeout, retries, start_period, start_interval, ext: extensions.entries() } }),
        decreases map.rest().len(),
//@proof start
    proof {
        reveal_strlit("disable"); reveal_strlit("test"); reveal_strlit("interval"); reveal_strlit("timeout"); reveal_strlit("retries"); reveal_strlit("start_period"); reveal_strlit("start_interval");
        assert("disable"@[0] == 'd' && "test"@[0] == 't' && "interval"@[0] == 'i' && "timeout"@[0] == 't' && "retries"@[0] == 'r' && "start_period"@[0] == 's' && "start_interval"@[0] == 's');
        assert("disable"@.len() == 7 && "test"@.len() == 4 && "timeout"@.len() == 7 && "start_period"@.len() == 12 && "start_interval"@.len() == 14);
    }
    let ghost gm = map.rest();
    let ghost mut gi: int = 0;
    broadcast use axiom_extension_key;
    proof { assert(gm.skip(0) =~= gm); }
//@proof loop 0 start
        proof {
            if gi < gm.len() && hc_fold(gm, (gi + 1) as nat) is None { lemma_stuck(hc_init(), gm, (gi + 1) as nat, gm.len()); }
            if gi < gm.len() { assert(gm.skip(gi)[0] == gm[gi]); assert(gm.skip(gi).skip(1) =~= gm.skip(gi + 1)); }
        }
//@proof loop 0 end
        proof { gi = gi + 1; }
//@end
//@fn src/service/healthcheck.rs :: <Serialize for Healthcheck>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { hc_node(*self) }
//@end
pub open spec fn hc_node(h: Healthcheck) -> XNode { match h { Healthcheck::Command(c) => c.node(), Healthcheck::Disable => XNode::Map(one("disable"@, XNode::Bool(true))) } }
// ------------------------------------------------------------ disabled or a command, never both
/// an entry which says whether the healthcheck is disabled
pub open spec fn about(e: Entry) -> bool { e.0 == "disable"@ || (e.0 == "test"@ && none_test(e.1)) }
pub open spec fn none_test(n: XNode) -> bool { n matches XNode::List(l) && l.len() > 0 && l[0] == XNode::Text("NONE"@) }
/// an entry which says it is
pub open spec fn disabling(e: Entry) -> bool { (e.0 == "disable"@ && e.1 == XNode::Bool(true)) || (e.0 == "test"@ && none_test(e.1)) }
/// an accepted document says it at most once, in whatever order, and is disabled exactly when it says so
pub proof fn theorem_disable(m: Seq<Entry>, n: nat)
    requires n <= m.len(), hc_fold(m, n) is Some,
    ensures
        hc_fold(m, n)->0.disable is None <==> forall|i: int| 0 <= i < n ==> !about(#[trigger] m[i]),
        hc_fold(m, n)->0.disable == Some(true) <==> exists|i: int| 0 <= i < n && disabling(#[trigger] m[i]),
        forall|i: int, j: int| 0 <= i < j < n ==> !(about(#[trigger] m[i]) && about(#[trigger] m[j])),
    decreases n
{
    reveal_strlit("disable"); reveal_strlit("test"); reveal_strlit("NONE"); reveal_strlit("CMD"); reveal_strlit("CMD-SHELL");
    assert("disable"@.len() == 7 && "test"@.len() == 4);
    assert("CMD"@.len() != "NONE"@.len() && "CMD-SHELL"@.len() != "NONE"@.len());
    if n > 0 {
        let k = (n - 1) as nat;
        theorem_disable(m, k);
        let h = hc_fold(m, k)->0;
        let e = m[k as int];
        assert(hc_fold(m, n) == hc_step(h, e.0, e.1));
        assert(about(e) ==> h.disable is None);
        assert(!about(e) ==> hc_fold(m, n)->0.disable == h.disable);
        if hc_fold(m, n)->0.disable == Some(true) { if about(e) { assert(disabling(m[k as int])); } }
    }
}
pub open spec fn dur_rt(d: Option<Duration>) -> bool { d is Some ==> dur_rd(duration_option_node(d)) == Some(DurationOption(d)) }
pub proof fn lemma_test(t: Test, d: Option<bool>)
    ensures test_rd(t.node(), d, None) == Some((d, Some(t)))
{
    broadcast use axiom_vec_of_vec, axiom_text_of_string;
    reveal_strlit("CMD"); reveal_strlit("CMD-SHELL"); reveal_strlit("NONE");
    match t {
        Test::Command(v) => {
            let l = seq![XNode::Text("CMD"@)] + write_all(v@);
            assert(l[0] == XNode::Text("CMD"@));
            assert(l.skip(1) =~= write_all(v@));
            assert forall|i: int| 0 <= i < v@.len() implies String::rd(#[trigger] write_all(v@)[i]) == Some(v@[i]) by { assert(text_of(v@[i]@) == v@[i]); }
            assert(read_all::<String>(write_all(v@)) =~= v@);
        }
        Test::ShellCommand(s) => { assert(text_of(s@) == s); }
    }
}
pub open spec fn opt_one(c: bool, k: Seq<char>, n: XNode) -> Seq<Entry> { if c { seq![] } else { seq![(k, n)] } }
pub proof fn lemma_opt(h: Option<Hc>, s: Seq<Entry>)
    requires s.len() <= 1
    ensures s.len() == 0 ==> hc_run(h, s, s.len()) == h, s.len() == 1 && h is Some ==> hc_run(h, s, s.len()) == hc_step(h->0, s[0].0, s[0].1)
{ if s.len() == 1 { assert(hc_run(h, s, 0) == h); reveal_with_fuel(hc_run, 2); } }
pub proof fn lemma_ext_run(h: Hc, x: Seq<(ExtensionKey, YamlValue)>, n: nat)
    requires ext_ok(x), n <= x.len(), h.c.ext.len() == 0
    ensures hc_run(Some(h), ext_entries(x), n) == Some(Hc { c: HcCommand { ext: x.take(n as int), ..h.c }, ..h })
    decreases n
{
    broadcast use axiom_extension_key;
    if n == 0 { assert(x.take(0) =~= h.c.ext); }
    else {
        lemma_ext_run(h, x, (n - 1) as nat);
        let i = n - 1;
        let k = x[i].0.key();
        assert(ext_entries(x)[i] == (k, x[i].1.node()));
        reveal_strlit("disable"); reveal_strlit("test"); reveal_strlit("interval"); reveal_strlit("timeout"); reveal_strlit("retries"); reveal_strlit("start_period"); reveal_strlit("start_interval");
        assert("disable"@[0] == 'd' && "test"@[0] == 't' && "interval"@[0] == 'i' && "timeout"@[0] == 't' && "retries"@[0] == 'r' && "start_period"@[0] == 's' && "start_interval"@[0] == 's');
        assert(k[0] == 'x');
        let t = x.take(i);
        assert(!ext_has(t, k)) by { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0.key() != k by { assert(t[j] == x[j]); } }
        assert(x.take(n as int) =~= t.push((x[i].0, x[i].1)));
    }
}
/// what is written reads back as the same healthcheck
pub proof fn theorem_healthcheck(h: Healthcheck)
    requires
        h matches Healthcheck::Command(c) ==> (c.retries is Some ==> u64::rd(c.retries.node()) == Some(c.retries->0)) && dur_rt(c.interval) && dur_rt(c.timeout) && dur_rt(c.start_period) && dur_rt(c.start_interval) && ext_ok(c.extensions.entries()),
    ensures
        h.node() is Map,
        h is Disable ==> hc_fold(h.node()->Map_0, h.node()->Map_0.len()) == Some(Hc { disable: Some(true), c: hc_none() }),
        h matches Healthcheck::Command(c) ==> hc_fold(h.node()->Map_0, h.node()->Map_0.len()) == Some(Hc { disable: None, c: command_view(c) }),
{
    reveal_strlit("disable"); reveal_strlit("test"); reveal_strlit("interval"); reveal_strlit("timeout"); reveal_strlit("retries"); reveal_strlit("start_period"); reveal_strlit("start_interval");
    assert("disable"@[0] == 'd' && "test"@[0] == 't' && "interval"@[0] == 'i' && "timeout"@[0] == 't' && "retries"@[0] == 'r' && "start_period"@[0] == 's' && "start_interval"@[0] == 's');
    assert("disable"@.len() == 7 && "test"@.len() == 4 && "timeout"@.len() == 7 && "start_period"@.len() == 12 && "start_interval"@.len() == 14);
    match h {
        Healthcheck::Disable => { lemma_opt(hc_init(), one("disable"@, XNode::Bool(true))); }
        Healthcheck::Command(c) => {
            let s1 = opt_one(c.test is None, "test"@, c.test.node());
            let s2 = opt_one(c.interval is None, "interval"@, duration_option_node(c.interval));
            let s3 = opt_one(c.timeout is None, "timeout"@, duration_option_node(c.timeout));
            let s4 = opt_one(c.retries is None, "retries"@, c.retries.node());
            let s5 = opt_one(c.start_period is None, "start_period"@, duration_option_node(c.start_period));
            let s6 = opt_one(c.start_interval is None, "start_interval"@, duration_option_node(c.start_interval));
            let x = c.extensions.entries();
            let s7 = ext_entries(x);
            let m = s1 + s2 + s3 + s4 + s5 + s6 + s7;
            assert(c.node()->Map_0 =~= m);
            let h0 = Hc { disable: None, c: hc_none() };
            let h1 = Hc { c: HcCommand { test: c.test, ..h0.c }, ..h0 };
            let h2 = Hc { c: HcCommand { interval: c.interval, ..h1.c }, ..h1 };
            let h3 = Hc { c: HcCommand { timeout: c.timeout, ..h2.c }, ..h2 };
            let h4 = Hc { c: HcCommand { retries: c.retries, ..h3.c }, ..h3 };
            let h5 = Hc { c: HcCommand { start_period: c.start_period, ..h4.c }, ..h4 };
            let h6 = Hc { c: HcCommand { start_interval: c.start_interval, ..h5.c }, ..h5 };
            lemma_opt(Some(h0), s1); if c.test is Some { lemma_test(c.test->0, None); }
            assert(hc_run(Some(h0), s1, s1.len()) == Some(h1));
            lemma_opt(Some(h1), s2); assert(hc_run(Some(h1), s2, s2.len()) == Some(h2));
            lemma_opt(Some(h2), s3); assert(hc_run(Some(h2), s3, s3.len()) == Some(h3));
            lemma_opt(Some(h3), s4); assert(hc_run(Some(h3), s4, s4.len()) == Some(h4));
            lemma_opt(Some(h4), s5); assert(hc_run(Some(h4), s5, s5.len()) == Some(h5));
            lemma_opt(Some(h5), s6); assert(hc_run(Some(h5), s6, s6.len()) == Some(h6));
            lemma_ext_run(h6, x, x.len());
            assert(x.take(x.len() as int) =~= x);
            lemma_cat(Some(h0), s1, s2, s2.len());
            lemma_cat(Some(h0), s1 + s2, s3, s3.len());
            lemma_cat(Some(h0), s1 + s2 + s3, s4, s4.len());
            lemma_cat(Some(h0), s1 + s2 + s3 + s4, s5, s5.len());
            lemma_cat(Some(h0), s1 + s2 + s3 + s4 + s5, s6, s6.len());
            lemma_cat(Some(h0), s1 + s2 + s3 + s4 + s5 + s6, s7, s7.len());
        }
    }
}
} // verus!
fn main() {}
