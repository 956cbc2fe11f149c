//@include prelude.vrs
verus! {
//@method fmt => x_fmt
//@include std_more.inc
//@include serde.inc
// ------------------------------------------------------------ what the choices hold
#[verifier::external_body]
pub struct PathBuf { s: String }
impl XDes for PathBuf { uninterp spec fn rd(n: XNode) -> Option<PathBuf>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<PathBuf, XErr>) { unimplemented!() } }
impl XSer for PathBuf { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
// the values of `network_mode` (P10) and `networks`
#[verifier::external_body]
pub struct NetworkMode { s: String }
impl XDes for NetworkMode { uninterp spec fn rd(n: XNode) -> Option<NetworkMode>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<NetworkMode, XErr>) { unimplemented!() } }
impl XSer for NetworkMode { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
#[verifier::external_body]
pub struct Networks { s: String }
impl XDes for Networks { uninterp spec fn rd(n: XNode) -> Option<Networks>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Networks, XErr>) { unimplemented!() } }
impl XSer for Networks { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
//@rename SourceFlat::deserialize => SourceFlat::x_deserialize
//@rename DockerfileFlat::deserialize => DockerfileFlat::x_deserialize
//@rename NetworkConfigFlat::deserialize => NetworkConfigFlat::x_deserialize
//@rename option::deserialize => option_deserialize
//@rename Field::from => Field::field_from
// ------------------------------------------------------------ config
pub mod config {
use super::*;
//@serde src/config.rs :: SourceFlat | de
//@type src/config.rs :: Source
//@type src/config.rs :: SourceField | derive=Clone, Copy
//@const src/config.rs :: Source::NAME
//@fn src/config.rs :: <From<PathBuf> for Source>::from | as=source_from_path
    ensures r == Source::File(value)
//@end
impl XInto<Source> for PathBuf {
    open spec fn x_into_post(self, u: Source) -> bool { u == Source::File(self) }
    fn x_into(self) -> (u: Source) { Source::source_from_path(self) }
}
//@fn src/config.rs :: SourceField::as_str
    ensures r@ == field_key(self)
//@end
pub open spec fn field_key(f: SourceField) -> Seq<char> { match f { SourceField::File => "file"@, SourceField::Environment => "environment"@, SourceField::Content => "content"@ } }
//@fn src/config.rs :: <Serialize for Source>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { choice_node(*self) }
//@end
/// the key of the choice, and nothing else
pub open spec fn choice_node(c: Source) -> XNode {
    XNode::Map(match c { Source::File(v) => one("file"@, v.node()), Source::Environment(v) => one("environment"@, v.node()), Source::Content(v) => one("content"@, v.node()) })
}
pub open spec fn none_given(n: XNode) -> bool { n matches XNode::Map(m) && absent::<PathBuf>(m, "file"@) && absent::<String>(m, "environment"@) && absent::<String>(m, "content"@) }
/// exactly one of the keys, and its value
pub open spec fn choice_rd(n: XNode) -> Option<Source> {
    match n {
        XNode::Map(m) => {
            if given::<PathBuf>(m, "file"@) && absent::<String>(m, "environment"@) && absent::<String>(m, "content"@) { Some(Source::File(value::<PathBuf>(m, "file"@))) }
            else if absent::<PathBuf>(m, "file"@) && given::<String>(m, "environment"@) && absent::<String>(m, "content"@) { Some(Source::Environment(value::<String>(m, "environment"@))) }
            else if absent::<PathBuf>(m, "file"@) && absent::<String>(m, "environment"@) && given::<String>(m, "content"@) { Some(Source::Content(value::<String>(m, "content"@))) }
            else { None }
        }
        _ => None,
    }
}
//@fn expanded :: config::<Deserialize for Source>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<Source, XErr> | extra=open spec fn rd(n: XNode) -> Option<Source> { choice_rd(n) }
//@end
/// what is written reads back as the same choice, and holds one key
pub proof fn theorem_config(c: Source)
    requires match c { Source::File(v) => rt(v), Source::Environment(v) => rt(v), Source::Content(v) => rt(v) },
    ensures choice_rd(choice_node(c)) == Some(c), choice_node(c)->Map_0.len() == 1, !none_given(choice_node(c)),
{
    reveal_strlit("file"); reveal_strlit("environment"); reveal_strlit("content");
    assert("file"@.len() != "environment"@.len() && "file"@.len() != "content"@.len() && "environment"@.len() != "content"@.len());
    match c {
        Source::File(v) => { lemma_one::<PathBuf>("file"@, v.node(), "file"@); lemma_one::<String>("file"@, v.node(), "environment"@); lemma_one::<String>("file"@, v.node(), "content"@); }
        Source::Environment(v) => { lemma_one::<PathBuf>("environment"@, v.node(), "file"@); lemma_one::<String>("environment"@, v.node(), "environment"@); lemma_one::<String>("environment"@, v.node(), "content"@); }
        Source::Content(v) => { lemma_one::<PathBuf>("content"@, v.node(), "file"@); lemma_one::<String>("content"@, v.node(), "environment"@); lemma_one::<String>("content"@, v.node(), "content"@); }
    }
}
} // config
// ------------------------------------------------------------ secret
pub mod secret {
use super::*;
//@serde src/secret.rs :: SourceFlat | de
//@type src/secret.rs :: Source
//@type src/secret.rs :: SourceField | derive=Clone, Copy
//@const src/secret.rs :: Source::NAME
//@fn src/secret.rs :: <From<PathBuf> for Source>::from | as=source_from_path
    ensures r == Source::File(value)
//@end
impl XInto<Source> for PathBuf {
    open spec fn x_into_post(self, u: Source) -> bool { u == Source::File(self) }
    fn x_into(self) -> (u: Source) { Source::source_from_path(self) }
}
//@fn src/secret.rs :: SourceField::as_str
    ensures r@ == field_key(self)
//@end
pub open spec fn field_key(f: SourceField) -> Seq<char> { match f { SourceField::File => "file"@, SourceField::Environment => "environment"@ } }
//@fn src/secret.rs :: <Serialize for Source>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { choice_node(*self) }
//@end
/// the key of the choice, and nothing else
pub open spec fn choice_node(c: Source) -> XNode {
    XNode::Map(match c { Source::File(v) => one("file"@, v.node()), Source::Environment(v) => one("environment"@, v.node()) })
}
pub open spec fn none_given(n: XNode) -> bool { n matches XNode::Map(m) && absent::<PathBuf>(m, "file"@) && absent::<String>(m, "environment"@) }
/// exactly one of the keys, and its value
pub open spec fn choice_rd(n: XNode) -> Option<Source> {
    match n {
        XNode::Map(m) => {
            if given::<PathBuf>(m, "file"@) && absent::<String>(m, "environment"@) { Some(Source::File(value::<PathBuf>(m, "file"@))) }
            else if absent::<PathBuf>(m, "file"@) && given::<String>(m, "environment"@) { Some(Source::Environment(value::<String>(m, "environment"@))) }
            else { None }
        }
        _ => None,
    }
}
//@fn expanded :: secret::<Deserialize for Source>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<Source, XErr> | extra=open spec fn rd(n: XNode) -> Option<Source> { choice_rd(n) }
//@end
/// what is written reads back as the same choice, and holds one key
pub proof fn theorem_secret(c: Source)
    requires match c { Source::File(v) => rt(v), Source::Environment(v) => rt(v) },
    ensures choice_rd(choice_node(c)) == Some(c), choice_node(c)->Map_0.len() == 1, !none_given(choice_node(c)),
{
    reveal_strlit("file"); reveal_strlit("environment");
    assert("file"@.len() != "environment"@.len());
    match c {
        Source::File(v) => { lemma_one::<PathBuf>("file"@, v.node(), "file"@); lemma_one::<String>("file"@, v.node(), "environment"@); }
        Source::Environment(v) => { lemma_one::<PathBuf>("environment"@, v.node(), "file"@); lemma_one::<String>("environment"@, v.node(), "environment"@); }
    }
}
} // secret
// ------------------------------------------------------------ dockerfile
pub mod dockerfile {
use super::*;
//@serde src/service/build/dockerfile.rs :: option::DockerfileFlat | de
//@type src/service/build/dockerfile.rs :: Dockerfile
//@type src/service/build/dockerfile.rs :: Field | derive=Clone, Copy
//@const src/service/build/dockerfile.rs :: Dockerfile::NAME
//@fn src/service/build/dockerfile.rs :: <From<&Dockerfile> for Field>::from | as=field_from
    ensures field_key(r) == (match *value { Dockerfile::File(_) => "dockerfile"@, Dockerfile::Inline(_) => "dockerfile_inline"@ })
//@end
//@fn src/service/build/dockerfile.rs :: Field::as_str
    ensures r@ == field_key(self)
//@end
pub open spec fn field_key(f: Field) -> Seq<char> { match f { Field::Dockerfile => "dockerfile"@, Field::DockerfileInline => "dockerfile_inline"@ } }
//@fn src/service/build/dockerfile.rs :: <Serialize for Dockerfile>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { choice_node(*self) }
//@end
/// the key of the choice, and nothing else
pub open spec fn choice_node(c: Dockerfile) -> XNode {
    XNode::Map(match c { Dockerfile::File(v) => one("dockerfile"@, v.node()), Dockerfile::Inline(v) => one("dockerfile_inline"@, v.node()) })
}
pub open spec fn none_given(n: XNode) -> bool { n matches XNode::Map(m) && absent::<PathBuf>(m, "dockerfile"@) && absent::<String>(m, "dockerfile_inline"@) }
/// exactly one of the keys, and its value
pub open spec fn choice_rd(n: XNode) -> Option<Dockerfile> {
    match n {
        XNode::Map(m) => {
            if given::<PathBuf>(m, "dockerfile"@) && absent::<String>(m, "dockerfile_inline"@) { Some(Dockerfile::File(value::<PathBuf>(m, "dockerfile"@))) }
            else if absent::<PathBuf>(m, "dockerfile"@) && given::<String>(m, "dockerfile_inline"@) { Some(Dockerfile::Inline(value::<String>(m, "dockerfile_inline"@))) }
            else { None }
        }
        _ => None,
    }
}
//@fn expanded :: service::build::dockerfile::option::deserialize | as=option_deserialize | subst=D:XDe | retty=Result<Option<Dockerfile>, XErr>
    ensures none_given(deserializer@) ==> r == Ok::<Option<Dockerfile>, XErr>(None), !none_given(deserializer@) ==> match choice_rd(deserializer@) { Some(c) => r == Ok::<Option<Dockerfile>, XErr>(Some(c)), None => r is Err }
//@end
//@fn src/service/build/dockerfile.rs :: option::serialize | as=option_serialize | subst=S:XSerializer | retty=Result<XOk, XErr>
    ensures r matches Ok(o) ==> o@ == value.node()
//@end
//@fn expanded :: service::build::dockerfile::<Deserialize for Dockerfile>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<Dockerfile, XErr> | extra=open spec fn rd(n: XNode) -> Option<Dockerfile> { choice_rd(n) }
//@end
/// what is written reads back as the same choice, and holds one key
pub proof fn theorem_dockerfile(c: Dockerfile)
    requires match c { Dockerfile::File(v) => rt(v), Dockerfile::Inline(v) => rt(v) },
    ensures choice_rd(choice_node(c)) == Some(c), choice_node(c)->Map_0.len() == 1, !none_given(choice_node(c)),
{
    reveal_strlit("dockerfile"); reveal_strlit("dockerfile_inline");
    assert("dockerfile"@.len() != "dockerfile_inline"@.len());
    match c {
        Dockerfile::File(v) => { lemma_one::<PathBuf>("dockerfile"@, v.node(), "dockerfile"@); lemma_one::<String>("dockerfile"@, v.node(), "dockerfile_inline"@); }
        Dockerfile::Inline(v) => { lemma_one::<PathBuf>("dockerfile_inline"@, v.node(), "dockerfile"@); lemma_one::<String>("dockerfile_inline"@, v.node(), "dockerfile_inline"@); }
    }
}
} // dockerfile
// ------------------------------------------------------------ network_config
pub mod network_config {
use super::*;
//@serde src/service/network_config.rs :: option::NetworkConfigFlat | de
//@type src/service/network_config.rs :: NetworkConfig
//@type src/service/network_config.rs :: Field | derive=Clone, Copy
//@const src/service/network_config.rs :: NetworkConfig::NAME
//@fn src/service/network_config.rs :: <From<NetworkMode> for NetworkConfig>::from | as=from_mode
    ensures r == NetworkConfig::NetworkMode(value)
//@end
impl XInto<NetworkConfig> for NetworkMode {
    open spec fn x_into_post(self, u: NetworkConfig) -> bool { u == NetworkConfig::NetworkMode(self) }
    fn x_into(self) -> (u: NetworkConfig) { NetworkConfig::from_mode(self) }
}
//@fn src/service/network_config.rs :: <From<Networks> for NetworkConfig>::from | as=from_networks
    ensures r == NetworkConfig::Networks(value)
//@end
impl XInto<NetworkConfig> for Networks {
    open spec fn x_into_post(self, u: NetworkConfig) -> bool { u == NetworkConfig::Networks(self) }
    fn x_into(self) -> (u: NetworkConfig) { NetworkConfig::from_networks(self) }
}
//@fn src/service/network_config.rs :: Field::as_str
    ensures r@ == field_key(self)
//@end
pub open spec fn field_key(f: Field) -> Seq<char> { match f { Field::NetworkMode => "network_mode"@, Field::Networks => "networks"@ } }
//@fn src/service/network_config.rs :: <Serialize for NetworkConfig>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { choice_node(*self) }
//@end
/// the key of the choice, and nothing else
pub open spec fn choice_node(c: NetworkConfig) -> XNode {
    XNode::Map(match c { NetworkConfig::NetworkMode(v) => one("network_mode"@, v.node()), NetworkConfig::Networks(v) => one("networks"@, v.node()) })
}
pub open spec fn none_given(n: XNode) -> bool { n matches XNode::Map(m) && absent::<NetworkMode>(m, "network_mode"@) && absent::<Networks>(m, "networks"@) }
/// exactly one of the keys, and its value
pub open spec fn choice_rd(n: XNode) -> Option<NetworkConfig> {
    match n {
        XNode::Map(m) => {
            if given::<NetworkMode>(m, "network_mode"@) && absent::<Networks>(m, "networks"@) { Some(NetworkConfig::NetworkMode(value::<NetworkMode>(m, "network_mode"@))) }
            else if absent::<NetworkMode>(m, "network_mode"@) && given::<Networks>(m, "networks"@) { Some(NetworkConfig::Networks(value::<Networks>(m, "networks"@))) }
            else { None }
        }
        _ => None,
    }
}
//@fn expanded :: service::network_config::option::deserialize | as=option_deserialize | subst=D:XDe | retty=Result<Option<NetworkConfig>, XErr>
    ensures none_given(deserializer@) ==> r == Ok::<Option<NetworkConfig>, XErr>(None), !none_given(deserializer@) ==> match choice_rd(deserializer@) { Some(c) => r == Ok::<Option<NetworkConfig>, XErr>(Some(c)), None => r is Err }
//@end
//@fn src/service/network_config.rs :: option::serialize | as=option_serialize | subst=S:XSerializer | retty=Result<XOk, XErr>
    ensures r matches Ok(o) ==> o@ == value.node()
//@end
//@fn expanded :: service::network_config::<Deserialize for NetworkConfig>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<NetworkConfig, XErr> | extra=open spec fn rd(n: XNode) -> Option<NetworkConfig> { choice_rd(n) }
//@end
/// what is written reads back as the same choice, and holds one key
pub proof fn theorem_network_config(c: NetworkConfig)
    requires match c { NetworkConfig::NetworkMode(v) => rt(v), NetworkConfig::Networks(v) => rt(v) },
    ensures choice_rd(choice_node(c)) == Some(c), choice_node(c)->Map_0.len() == 1, !none_given(choice_node(c)),
{
    reveal_strlit("network_mode"); reveal_strlit("networks");
    assert("network_mode"@.len() != "networks"@.len());
    match c {
        NetworkConfig::NetworkMode(v) => { lemma_one::<NetworkMode>("network_mode"@, v.node(), "network_mode"@); lemma_one::<Networks>("network_mode"@, v.node(), "networks"@); }
        NetworkConfig::Networks(v) => { lemma_one::<NetworkMode>("networks"@, v.node(), "network_mode"@); lemma_one::<Networks>("networks"@, v.node(), "networks"@); }
    }
}
} // network_config
} // verus!
fn main() {}
