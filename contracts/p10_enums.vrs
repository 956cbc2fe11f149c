//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@include std_more.inc
//@type src/service.rs :: Cgroup | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn cgroup_text(v: Cgroup) -> Seq<char> { match v { Cgroup::Host => seq!['h', 'o', 's', 't'], Cgroup::Private => seq!['p', 'r', 'i', 'v', 'a', 't', 'e'] } }
//@fn src/service.rs :: Cgroup::as_str
    ensures r@ == cgroup_text(self)
//@end
//@fn src/service.rs :: <AsRef<str> for Cgroup>::as_ref | as=as_text_ref
    ensures r@ == cgroup_text(*self)
//@end
//@fn src/service.rs :: <Display for Cgroup>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { cgroup_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_cgroup(a: Cgroup, b: Cgroup)
    requires a != b,
    ensures cgroup_text(a) != cgroup_text(b),
{
    let (s, t) = (cgroup_text(a), cgroup_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service.rs :: Condition | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn condition_text(v: Condition) -> Seq<char> { match v { Condition::ServiceStarted => seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', '_', 's', 't', 'a', 'r', 't', 'e', 'd'], Condition::ServiceHealthy => seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', '_', 'h', 'e', 'a', 'l', 't', 'h', 'y'], Condition::ServiceCompletedSuccessfully => seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', '_', 'c', 'o', 'm', 'p', 'l', 'e', 't', 'e', 'd', '_', 's', 'u', 'c', 'c', 'e', 's', 's', 'f', 'u', 'l', 'l', 'y'] } }
//@fn src/service.rs :: Condition::as_str
    ensures r@ == condition_text(self)
//@end
//@fn src/service.rs :: <AsRef<str> for Condition>::as_ref | as=as_text_ref
    ensures r@ == condition_text(*self)
//@end
//@fn src/service.rs :: <Display for Condition>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { condition_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_condition(a: Condition, b: Condition)
    requires a != b,
    ensures condition_text(a) != condition_text(b),
{
    let (s, t) = (condition_text(a), condition_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service.rs :: PullPolicy | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn pullpolicy_text(v: PullPolicy) -> Seq<char> { match v { PullPolicy::Always => seq!['a', 'l', 'w', 'a', 'y', 's'], PullPolicy::Never => seq!['n', 'e', 'v', 'e', 'r'], PullPolicy::Missing => seq!['m', 'i', 's', 's', 'i', 'n', 'g'], PullPolicy::Build => seq!['b', 'u', 'i', 'l', 'd'] } }
//@fn src/service.rs :: PullPolicy::as_str
    ensures r@ == pullpolicy_text(self)
//@end
//@fn src/service.rs :: <AsRef<str> for PullPolicy>::as_ref | as=as_text_ref
    ensures r@ == pullpolicy_text(*self)
//@end
//@fn src/service.rs :: <Display for PullPolicy>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { pullpolicy_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_pullpolicy(a: PullPolicy, b: PullPolicy)
    requires a != b,
    ensures pullpolicy_text(a) != pullpolicy_text(b),
{
    let (s, t) = (pullpolicy_text(a), pullpolicy_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service.rs :: Restart | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn restart_text(v: Restart) -> Seq<char> { match v { Restart::No => seq!['n', 'o'], Restart::Always => seq!['a', 'l', 'w', 'a', 'y', 's'], Restart::OnFailure => seq!['o', 'n', '-', 'f', 'a', 'i', 'l', 'u', 'r', 'e'], Restart::UnlessStopped => seq!['u', 'n', 'l', 'e', 's', 's', '-', 's', 't', 'o', 'p', 'p', 'e', 'd'] } }
//@fn src/service.rs :: Restart::as_str
    ensures r@ == restart_text(self)
//@end
//@fn src/service.rs :: <AsRef<str> for Restart>::as_ref | as=as_text_ref
    ensures r@ == restart_text(*self)
//@end
//@fn src/service.rs :: <Display for Restart>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { restart_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_restart(a: Restart, b: Restart)
    requires a != b,
    ensures restart_text(a) != restart_text(b),
{
    let (s, t) = (restart_text(a), restart_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service.rs :: Uts | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn uts_text(v: Uts) -> Seq<char> { match v { Uts::Host => seq!['h', 'o', 's', 't'] } }
//@fn src/service.rs :: Uts::as_str
    ensures r@ == uts_text(self)
//@end
//@fn src/service.rs :: <AsRef<str> for Uts>::as_ref | as=as_text_ref
    ensures r@ == uts_text(*self)
//@end
//@fn src/service.rs :: <Display for Uts>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { uts_text(*self) }
//@end
//@type src/service/develop.rs :: Action | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn action_text(v: Action) -> Seq<char> { match v { Action::Rebuild => seq!['r', 'e', 'b', 'u', 'i', 'l', 'd'], Action::Sync => seq!['s', 'y', 'n', 'c'], Action::SyncAndRestart => seq!['s', 'y', 'n', 'c', '+', 'r', 'e', 's', 't', 'a', 'r', 't'] } }
//@fn src/service/develop.rs :: Action::as_str
    ensures r@ == action_text(self)
//@end
//@fn src/service/develop.rs :: <AsRef<str> for Action>::as_ref | as=as_text_ref
    ensures r@ == action_text(*self)
//@end
//@fn src/service/develop.rs :: <Display for Action>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { action_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_action(a: Action, b: Action)
    requires a != b,
    ensures action_text(a) != action_text(b),
{
    let (s, t) = (action_text(a), action_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service/deploy.rs :: Mode | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn mode_text(v: Mode) -> Seq<char> { match v { Mode::Global => seq!['g', 'l', 'o', 'b', 'a', 'l'], Mode::Replicated => seq!['r', 'e', 'p', 'l', 'i', 'c', 'a', 't', 'e', 'd'] } }
//@fn src/service/deploy.rs :: Mode::as_str
    ensures r@ == mode_text(self)
//@end
//@fn src/service/deploy.rs :: <AsRef<str> for Mode>::as_ref | as=as_text_ref
    ensures r@ == mode_text(*self)
//@end
//@fn src/service/deploy.rs :: <Display for Mode>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { mode_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_deploy_mode(a: Mode, b: Mode)
    requires a != b,
    ensures mode_text(a) != mode_text(b),
{
    let (s, t) = (mode_text(a), mode_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service/deploy.rs :: RestartCondition | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn restartcondition_text(v: RestartCondition) -> Seq<char> { match v { RestartCondition::None => seq!['n', 'o', 'n', 'e'], RestartCondition::OnFailure => seq!['o', 'n', '-', 'f', 'a', 'i', 'l', 'u', 'r', 'e'], RestartCondition::Any => seq!['a', 'n', 'y'] } }
//@fn src/service/deploy.rs :: RestartCondition::as_str
    ensures r@ == restartcondition_text(self)
//@end
//@fn src/service/deploy.rs :: <AsRef<str> for RestartCondition>::as_ref | as=as_text_ref
    ensures r@ == restartcondition_text(*self)
//@end
//@fn src/service/deploy.rs :: <Display for RestartCondition>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { restartcondition_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_restartcondition(a: RestartCondition, b: RestartCondition)
    requires a != b,
    ensures restartcondition_text(a) != restartcondition_text(b),
{
    let (s, t) = (restartcondition_text(a), restartcondition_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service/deploy.rs :: FailureAction | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn failureaction_text(v: FailureAction) -> Seq<char> { match v { FailureAction::Continue => seq!['c', 'o', 'n', 't', 'i', 'n', 'u', 'e'], FailureAction::Pause => seq!['p', 'a', 'u', 's', 'e'] } }
//@fn src/service/deploy.rs :: FailureAction::as_str
    ensures r@ == failureaction_text(self)
//@end
//@fn src/service/deploy.rs :: <AsRef<str> for FailureAction>::as_ref | as=as_text_ref
    ensures r@ == failureaction_text(*self)
//@end
//@fn src/service/deploy.rs :: <Display for FailureAction>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { failureaction_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_failureaction(a: FailureAction, b: FailureAction)
    requires a != b,
    ensures failureaction_text(a) != failureaction_text(b),
{
    let (s, t) = (failureaction_text(a), failureaction_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service/deploy.rs :: Order | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn order_text(v: Order) -> Seq<char> { match v { Order::StopFirst => seq!['s', 't', 'o', 'p', '-', 'f', 'i', 'r', 's', 't'], Order::StartFirst => seq!['s', 't', 'a', 'r', 't', '-', 'f', 'i', 'r', 's', 't'] } }
//@fn src/service/deploy.rs :: Order::as_str
    ensures r@ == order_text(self)
//@end
//@fn src/service/deploy.rs :: <AsRef<str> for Order>::as_ref | as=as_text_ref
    ensures r@ == order_text(*self)
//@end
//@fn src/service/deploy.rs :: <Display for Order>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { order_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_order(a: Order, b: Order)
    requires a != b,
    ensures order_text(a) != order_text(b),
{
    let (s, t) = (order_text(a), order_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
//@type src/service/volumes/mount.rs :: BindPropagation | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn bindpropagation_text(v: BindPropagation) -> Seq<char> { match v { BindPropagation::Private => seq!['p', 'r', 'i', 'v', 'a', 't', 'e'], BindPropagation::Shared => seq!['s', 'h', 'a', 'r', 'e', 'd'], BindPropagation::Slave => seq!['s', 'l', 'a', 'v', 'e'], BindPropagation::Unbindable => seq!['u', 'n', 'b', 'i', 'n', 'd', 'a', 'b', 'l', 'e'], BindPropagation::RPrivate => seq!['r', 'p', 'r', 'i', 'v', 'a', 't', 'e'], BindPropagation::RShared => seq!['r', 's', 'h', 'a', 'r', 'e', 'd'], BindPropagation::RSlave => seq!['r', 's', 'l', 'a', 'v', 'e'], BindPropagation::RUnbindable => seq!['r', 'u', 'n', 'b', 'i', 'n', 'd', 'a', 'b', 'l', 'e'] } }
//@fn src/service/volumes/mount.rs :: BindPropagation::as_str
    ensures r@ == bindpropagation_text(self)
//@end
//@fn src/service/volumes/mount.rs :: <AsRef<str> for BindPropagation>::as_ref | as=as_text_ref
    ensures r@ == bindpropagation_text(*self)
//@end
//@fn src/service/volumes/mount.rs :: <Display for BindPropagation>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { bindpropagation_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_bindpropagation(a: BindPropagation, b: BindPropagation)
    requires a != b,
    ensures bindpropagation_text(a) != bindpropagation_text(b),
{
    let (s, t) = (bindpropagation_text(a), bindpropagation_text(b));
    if s.len() == t.len() { assert(exists|i: int| 0 <= i < s.len() && s[i] != t[i]) by { assert(s[0] == t[0] || s[0] != t[0]); assert(s[1] == t[1] || s[1] != t[1]); assert(s[2] == t[2] || s[2] != t[2]); } }
}
pub mod ports {
use super::*;
//@type src/service/ports.rs :: Mode | derive=Clone, Copy
/// the keyword of each variant
pub open spec fn port_mode_text(v: Mode) -> Seq<char> { match v { Mode::Host => seq!['h', 'o', 's', 't'], Mode::Ingress => seq!['i', 'n', 'g', 'r', 'e', 's', 's'] } }
//@fn src/service/ports.rs :: Mode::as_str
    ensures r@ == port_mode_text(self)
//@end
//@fn src/service/ports.rs :: <AsRef<str> for Mode>::as_ref | as=as_text_ref
    ensures r@ == port_mode_text(*self)
//@end
//@fn src/service/ports.rs :: <Display for Mode>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { port_mode_text(*self) }
//@end
/// different variants print differently
pub proof fn theorem_port_mode(a: Mode, b: Mode)
    requires a != b,
    ensures port_mode_text(a) != port_mode_text(b),
{ assert(port_mode_text(Mode::Host).len() != port_mode_text(Mode::Ingress).len()); }
}
} // verus!
fn main() {}
