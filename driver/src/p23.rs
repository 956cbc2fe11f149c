//! Build contexts: the URL a text spells, or the path it is; what a git repository's fragment names.
use crate::core::*;
use compose_spec::service::build::Context;
use compose_spec::service::Build;
use std::borrow::Cow;
use std::path::{Path, PathBuf};

const SCHEMES: &[&str] = &["http", "https", "HTTP", "Https", "git", "ssh", "ftp", "file", "git+https", "httpss", "h"];
const PATHS: &[&str] = &["/a.git", "/a/b.git", "/a.GIT", "/a.Git", "/a.git/", "/a.git/b", "/a", "/", "", "/.git", "/a.gitx", "/agit", "/a.b.git", "/a.git.b", "/a..git", "/%20.git", "/a.tar.gz"];
const FRAGMENTS: &[&str] = &["", "b", "b:c", "b:", ":c", ":", "b:c:d", "::", "b/c", "refs/heads/x:dir/sub", "v1.2", ":a:b", "a::b", "b?c", "#", "b#c"];

/// every public way of making a context from a text
fn ways(s: &str) -> Vec<(&'static str, Context)> {
    vec![
        ("from &str", Context::from(s)), ("from String", Context::from(s.to_owned())), ("from Box<str>", Context::from(Box::<str>::from(s))),
        ("from Cow borrowed", Context::from(Cow::Borrowed(s))), ("from Cow owned", Context::from(Cow::<str>::Owned(s.to_owned()))),
        ("parse", s.parse().unwrap()), ("Context::parse &str", Context::parse(s)), ("Context::parse String", Context::parse(s.to_owned())),
        ("document", serde_yaml::from_value(serde_yaml::Value::String(s.to_owned())).unwrap()),
    ]
}
fn out(c: &Context, s: &str) -> R {
    eq("into_string", c.clone().into_string(), Ok(s.to_owned()))?;
    eq("to_string", c.to_string(), s.to_owned())?;
    eq("written", serde_yaml::to_value(c).map_err(|e| e.to_string())?, serde_yaml::Value::String(s.to_owned()))
}
fn path(s: &str) -> R {
    for (way, c) in ways(s) {
        eq(way, &c, &Context::Path(PathBuf::from(s)))?;
        eq("as_path", c.as_path().map(PathBuf::as_path), Some(Path::new(s)))?;
        ensure(c.as_url().is_none() && !c.is_git_repo_url() && c.branch_or_tag().is_none() && c.subdirectory().is_none(), || format!("{way}: a path has parts of a URL"))?;
        out(&c, s)?;
    }
    Ok(())
}
fn url(scheme: &str, path: &str, query: &str, fragment: Option<&str>) -> R {
    let low = scheme.to_ascii_lowercase();
    let text = format!("{scheme}://example.com{path}{query}{}", fragment.map(|f| format!("#{f}")).unwrap_or_default());
    // URLs of the web have a path, and a file URL of no path has one
    let path = if path.is_empty() && ["http", "https", "ftp", "file"].contains(&low.as_str()) { "/" } else { path };
    let whole = format!("{low}://example.com{path}{query}{}", fragment.map(|f| format!("#{f}")).unwrap_or_default());
    let last = path.trim_end_matches('/').rsplit('/').next().unwrap();
    let git = ["http", "https"].contains(&low.as_str()) && last.rsplit_once('.').is_some_and(|(stem, ext)| !stem.is_empty() && ext.eq_ignore_ascii_case("git"));
    let (branch, dir) = match fragment {
        Some(f) if git => match f.find(':') {
            Some(i) => (Some(&f[..i]), Some(&f[i + 1..])),
            None => (Some(f), None),
        },
        _ => (None, None),
    };
    let all = ways(&text);
    for (way, c) in &all {
        ensure(c.as_path().is_none(), || format!("{way}: a URL is a path"))?;
        let u = c.as_url().ok_or_else(|| format!("{way}: not a URL"))?;
        eq("scheme", u.scheme(), low.as_str())?;
        eq("path", u.path(), path)?;
        eq("fragment", u.fragment(), fragment)?;
        eq("is_git_repo_url", c.is_git_repo_url(), git)?;
        eq("branch_or_tag", c.branch_or_tag(), branch)?;
        eq("subdirectory", c.subdirectory(), dir)?;
        out(c, &whole)?;
        eq("from the URL", &Context::from(u.clone()), c)?;
        eq(way, c, &all[0].1)?;
    }
    let b: Build = all[0].1.clone().into();
    eq("context of a build", b.context.as_ref(), Some(&all[0].1))?;
    Ok(())
}
pub fn run(cx: &mut Cx) {
    let rule = "a context that is not a URL is the path of the same text";
    for s in [".", "", "..", "./a", "/a", "a.git", "./a.git", "a/b.git#c:d", "/a#b", "a b", "#", ":", "::", "1:a", "://a", "//a.b/c", "git@github.com:a/b.git", "github.com/a/b.git", "-", "http", "http//a", "\u{e9}", "a?b"] {
        cx.case(rule, s, || path(s));
    }
    cx.all(&["a", ".", "/", "#", "-", " "], 4, |cx, s| {
        let s = s.to_owned();
        cx.case(rule, &s.clone(), || path(&s));
    });
    let rule = "a context that is a URL is that URL, and a git repository's fragment is branch and subdirectory";
    for scheme in SCHEMES {
        for p in PATHS {
            for q in ["", "?q", "?a=b.git"] {
                for f in std::iter::once(None).chain(FRAGMENTS.iter().map(|f| Some(*f))) {
                    if p.is_empty() && *scheme == "file" {
                        continue;
                    }
                    cx.case(rule, &format!("{scheme}://example.com{p}{q} {f:?}"), || url(scheme, p, q, f));
                }
            }
        }
    }
    cx.all(&["a", ":", "/", "b", "%3A"], 5, |cx, f| {
        let f = f.to_owned();
        cx.case(rule, &format!("https://example.com/r.git#{f}"), || url("https", "/r.git", "", Some(&f)));
    });
    cx.random(&["a", ":", "/", ".", "git", "-", "%3A", "?", "#", "@"], 8, 200 * cx_effort(cx), |cx, f| {
        let f = f.to_owned();
        cx.case(rule, &format!("http://example.com/x/r.git#{f}"), || url("http", "/x/r.git", "", Some(&f)));
    });
    let rule = "a context made from a path is that path, whatever it looks like";
    for s in [".", "", "/a", "https://example.com/a.git#b:c", "a:b", "file:///a"] {
        cx.case(rule, s, || {
            let want = Context::Path(PathBuf::from(s));
            for c in [Context::from(PathBuf::from(s)), Context::from(Path::new(s)), Context::from(Cow::Borrowed(Path::new(s))), Context::from(Cow::<Path>::Owned(PathBuf::from(s)))] {
                eq("context", &c, &want)?;
                eq("as_path", c.as_path(), Some(&PathBuf::from(s)))?;
                ensure(c.as_url().is_none(), || "a path is a URL".into())?;
                out(&c, s)?;
            }
            Ok(())
        });
    }
    cx.case(rule, "default", || eq("default", Context::default(), Context::Path(PathBuf::from("."))));
    #[cfg(unix)]
    cx.case(rule, "a path that is no text", || {
        use std::os::unix::ffi::OsStringExt;
        let p = PathBuf::from(std::ffi::OsString::from_vec(vec![b'a', 0xff]));
        eq("into_string", Context::Path(p.clone()).into_string(), Err(Context::Path(p)))
    });
}
fn cx_effort(cx: &Cx) -> u64 {
    cx.effort
}
