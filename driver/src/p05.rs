//! Edits of images: every edit is compared with what editing the parts and joining them gives.
use crate::core::*;
use crate::p04::{agrees, digest, hash, image, name, part, tag};
use compose_spec::service::image::{Digest, Image, Name, Tag, TagOrDigest};

#[derive(Clone, Debug, PartialEq)]
struct Model {
    name: String,
    tag: Option<String>,
    digest: Option<String>,
}
impl Model {
    fn text(&self) -> String {
        match (&self.tag, &self.digest) {
            (Some(t), _) => format!("{}:{t}", self.name),
            (_, Some(d)) => format!("{}@{d}", self.name),
            _ => self.name.clone(),
        }
    }
    /// a name that is a registry only may carry a port, and then does not stand alone
    fn plain(&self) -> bool {
        self.tag.is_some() || !self.name.rsplit('/').next().unwrap_or("").contains(':')
    }
    fn registry(&self) -> Option<&str> {
        name(&self.name).expect("model name")
    }
    fn set_registry(&mut self, r: Option<&str>) {
        let old = self.registry().map(str::len);
        self.name = match (r, old) {
            (Some(r), Some(e)) => format!("{r}{}", &self.name[e..]),
            (Some(r), None) => format!("{r}/{}", self.name),
            (None, Some(e)) if e == self.name.len() => self.name.clone(),
            (None, Some(e)) => self.name[e + 1..].to_owned(),
            (None, None) => self.name.clone(),
        };
    }
}
fn matches(i: &Image, m: &Model, step: &str) -> R {
    let t = m.text();
    let want = (m.registry(), m.name.as_str(), m.tag.as_deref(), m.digest.as_deref());
    agrees(i, &t, want).map_err(|e| format!("after {step}: {e}"))?;
    if m.plain() {
        let j = Image::parse(t.as_str()).map_err(|e| format!("after {step}: {t:?} does not parse: {e}"))?;
        ensure(*i == j && hash(i) == hash(&j), || format!("after {step}: not equal to the image parsed from its own text"))?;
        agrees(&j, &t, want).map_err(|e| format!("after {step}, parsed again: {e}"))?;
        eq("the grammar's parts", image(&t), Some(want))?;
    }
    let (n, x) = i.as_parts();
    let k: Image = (n, x).into();
    agrees(&k, &t, want).map_err(|e| format!("after {step}, rebuilt from its borrowed parts: {e}"))?;
    let k = Image::from_parts(n, x);
    agrees(&k, &t, want).map_err(|e| format!("after {step}, from_parts of its parts: {e}"))
}
/// the input is a start image and edits, separated by spaces:
/// `r=`/`n=`/`t=`/`d=`/`o:=`/`o@=` with a value, or `r!`, `t!`, `d!`, `o!`
fn check(cx: &mut Cx, input: &str) {
    cx.case("edits change the named part only", input, || {
        let mut steps = input.split(' ');
        let start = steps.next().unwrap_or("");
        let Some((_, n, t, d)) = image(start) else { return Ok(()) };
        let mut m = Model { name: n.into(), tag: t.map(Into::into), digest: d.map(Into::into) };
        let mut i = Image::parse(start).map_err(|e| e.to_string())?;
        matches(&i, &m, "parsing")?;
        for s in steps {
            let (k, v) = (&s[..2], &s[2..]);
            match k {
                "r=" => {
                    i.set_registry(Some(Name::new(v).unwrap()));
                    m.set_registry(Some(v));
                    eq("registry after setting it", i.registry(), Some(v))?;
                }
                "r!" => {
                    i.set_registry(None);
                    m.set_registry(None);
                }
                "n=" => {
                    i.set_name(Name::new(v).unwrap());
                    m.name = v.into();
                    eq("name after setting it", i.name(), v)?;
                }
                "t=" => {
                    i.set_tag(Some(Tag::new(v).unwrap()));
                    m.tag = Some(v.into());
                    m.digest = None;
                    eq("tag after setting it", i.tag(), Some(v))?;
                }
                "d=" => {
                    i.set_digest(Some(Digest::new(v).unwrap()));
                    m.digest = Some(v.into());
                    m.tag = None;
                    eq("digest after setting it", i.digest(), Some(v))?;
                }
                "o:" => {
                    i.set_tag_or_digest(Some(TagOrDigest::Tag(Tag::new(&v[1..]).unwrap())));
                    m.tag = Some(v[1..].into());
                    m.digest = None;
                }
                "o@" => {
                    i.set_tag_or_digest(Some(Digest::new(&v[1..]).unwrap().into()));
                    m.digest = Some(v[1..].into());
                    m.tag = None;
                }
                "t!" => {
                    i.set_tag(None);
                    m.tag = None;
                    m.digest = None;
                }
                "d!" => {
                    i.set_digest(None);
                    m.tag = None;
                    m.digest = None;
                }
                _ => {
                    i.set_tag_or_digest(None);
                    m.tag = None;
                    m.digest = None;
                }
            }
            matches(&i, &m, s)?;
        }
        Ok(())
    });
}
fn built(cx: &mut Cx, n: &str, t: Option<&str>) {
    let input = match t {
        Some(t) => format!("{n} {t}"),
        None => n.to_owned(),
    };
    cx.case("an image built from parts has these parts", &input, || {
        let name = Name::new(n).unwrap();
        let m = |t: Option<&str>, d: Option<&str>| Model { name: n.into(), tag: t.map(Into::into), digest: d.map(Into::into) };
        let Some(t) = t else {
            matches(&Image::from_parts(name, None), &m(None, None), "from_parts")?;
            return matches(&Image::from(name), &m(None, None), "from(Name)");
        };
        if tag(t) {
            let x: TagOrDigest = Tag::new(t).unwrap().into();
            matches(&Image::from_parts(name, Some(x)), &m(Some(t), None), "from_parts")?;
            matches(&Image::from((name, x)), &m(Some(t), None), "from((Name, TagOrDigest))")?;
        }
        if digest(t) {
            let x: TagOrDigest = Digest::new(t).unwrap().into();
            matches(&Image::from_parts(name, Some(x)), &m(None, Some(t)), "from_parts")?;
            matches(&Image::from((name, Some(x))), &m(None, Some(t)), "from((Name, Option))")?;
        }
        Ok(())
    });
}
const REGS: &[&str] = &["q.io", "docker.io", "a.b:1", "a.b:65535", "registry.example.com:5000", "1.2.3.4:80"];
const NAMES: &[&str] = &["a", "busybox", "lib/a", "q.io/a", "q.io/podman/hello", "a.b:1/c", "a.b:65535/c/d/e", "q.io/x.y", "q.io/x.y/z.w", "q.io", "a.b/c.d/e"];
const TAGS: &[&str] = &["x", "latest", "1.2.3-alpine_3", "443"];
const DIGS: &[&str] = &["a:b", "sha256:075975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5", "x+y:Z=_-", "sha512:0"];

fn image_text(cx: &mut Cx) -> String {
    let n = cx.pick(NAMES);
    match cx.below(3) {
        0 => n.to_owned(),
        1 => format!("{n}:{}", cx.pick(TAGS)),
        _ => format!("{n}@{}", cx.pick(DIGS)),
    }
}
fn edits() -> Vec<String> {
    let mut v: Vec<String> = ["r!", "t!", "d!", "o!"].map(String::from).into();
    for (k, l) in [("r=", REGS), ("n=", NAMES), ("t=", TAGS), ("d=", DIGS), ("o:=", TAGS), ("o@=", DIGS)] {
        v.extend(l.iter().map(|x| format!("{k}{x}")));
    }
    v
}
pub fn run(cx: &mut Cx) {
    debug_assert!(part("a"));
    let all = edits();
    let mut starts: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    for n in NAMES {
        starts.extend(TAGS.iter().map(|t| format!("{n}:{t}")));
        starts.extend(DIGS.iter().map(|t| format!("{n}@{t}")));
    }
    starts.push("q.io:443:x".into());
    for n in NAMES.iter().chain(REGS) {
        built(cx, n, None);
        for t in TAGS.iter().chain(DIGS) {
            built(cx, n, Some(t));
        }
    }
    for s in &starts {
        for a in &all {
            check(cx, &format!("{s} {a}"));
        }
    }
    for (k, s) in starts.iter().enumerate() {
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                if (k + i + j) % 5 == 0 || cx.effort > 1 {
                    check(cx, &format!("{s} {a} {b}"));
                }
            }
        }
    }
    for _ in 0..6_000 * cx.effort {
        let mut s = image_text(cx);
        for _ in 0..cx.below(9) {
            s.push(' ');
            let k = cx.below(all.len());
            s.push_str(&all[k]);
        }
        check(cx, &s);
    }
}
