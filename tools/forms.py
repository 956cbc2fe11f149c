#!/usr/bin/env python3
"""Prints the contracts of every conversion and document form of a validated text newtype
(as `key_impls!` generates them); pasted into the P03 units.
usage: forms.py TYPE MODULE OK-SPEC ERROR [have=as_str,Display] [no=Borrow,...]"""
import sys
def forms(T, M, ok, E, box=True, have=(), no=()):
    post = f'{T.lower()}_post'
    o = [f'''// ------------------------------------------------------------ {T}: every conversion and document form
pub open spec fn {post}(s: Seq<char>, r: Option<{T}>) -> bool {{ &&& r is Some <==> {ok}(s) &&& r matches Some(k) ==> k.0@ == s }}
impl XTextOut for {T} {{ open spec fn text_post(s: Seq<char>, r: Option<{T}>) -> bool {{ {post}(s, r) }} }}''']
    def fn(sel, opts, ens=None, start=None):
        o.append(f'//@fn expanded :: {M}::{sel}' + ''.join(f' | {x}' for x in opts))
        if ens: o.append(f'    ensures {ens}')
        if start: o.append('//@proof start\n    ' + start)
        o.append('//@end')
    if 'as_str' not in have:
        fn(f'{T}::as_str', [], 'r@ == self.0@')
    if 'AsRef' not in no:
        fn(f'<AsRef<str> for {T}>::as_ref', ['trait=XAsRefStr', 'as=x_as_ref', 'extra=open spec fn asv(&self) -> Seq<char> { self.0@ }'])
    if 'Borrow' not in no:
        fn(f'<Borrow<str> for {T}>::borrow', ['as=borrow_text'], 'r@ == self.0@')
    if 'Display' not in have:
        fn(f'<Display for {T}>::fmt', ['trait=XDisplay', 'as=x_fmt', 'extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }'])
    if 'PartialEq' not in no:
        fn(f'<PartialEq<str> for {T}>::eq', ['as=eq_text'], 'r == (self.0@ == other@)')
        fn(f'<PartialEq<&str> for {T}>::eq', ['as=eq_text_ref'], 'r == (self.0@ == (*other)@)')
    fn(f'<PartialEq for {T}>::eq', ['as=eq_value'], 'r == (self.0@ == other.0@)', 'proof { axiom_box_text_eq(self.0, other.0); }')
    fn(f'<FromStr for {T}>::from_str', ['meth=try_into:x_text_into', 'retty=Result<Self, %s>' % E], f'{post}(s@, got_ok(r))')
    fn(f'<TryFrom<&str> for {T}>::try_from', ['as=x_from_ref', 'trait=XFromRef', f'extra=type ERef = {E};'])
    fn(f'<TryFrom<String> for {T}>::try_from', ['as=x_from_string', 'trait=XFromString', f'extra=type EString = {E};'])
    fn(f'<TryFrom<Box<str>> for {T}>::try_from', ['as=from_box'], f'{post}(value@, got_ok(r))')
    if 'Cow' not in no:
        fn(f'<TryFrom<::std::borrow::Cow<str>> for {T}>::try_from', ['as=from_cow'], f'{post}(value.asv(), got_ok(r))')
    low = T.lower()
    fn(f'<From<{T}> for Box<str>>::from', [f'as={low}_to_box', 'free', 'retty=Box<str>'], 'r@ == value.0@')
    fn(f'<From<{T}> for String>::from', [f'as={low}_to_string', 'free', 'retty=String'], 'r@ == value.0@')
    fn(f'<Serialize for {T}>::serialize', ['subst=S:XTextSer', 'retty=Result<XTextOk, XErr>'], 'r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)')
    fn(f'<Deserialize for {T}>::deserialize', ['subst=D:XTextDe', 'retty=Result<Self, XErr>'], f'doc_post::<{T}>(deserializer@, r)')
    return '\n'.join(o) + '\n'
def strforms(T, M, out, E=None, have=()):
    '''the conversions `impl_from_str!` generates for a type with `parse`, and its document form; `out` is a spec fn (text, Option<T>)'''
    low = T.lower()
    o = [f'''// ------------------------------------------------------------ {T}: every conversion and document form
impl XTextOut for {T} {{ open spec fn text_post(s: Seq<char>, r: Option<{T}>) -> bool {{ {out}(s, r) }} }}''']
    def fn(sel, opts, ens=None):
        o.append(f'//@fn expanded :: {M}::{sel}' + ''.join(f' | {x}' for x in opts))
        if ens: o.append(f'    ensures {ens}')
        o.append('//@end')
    if 'FromStr' not in have:
        fn(f'<FromStr for {T}>::from_str', ['as=from_text', f'retty=Result<Self, {E or "Infallible"}>'], f'{out}(s@, got_ok(r))')
    if E:
        fn(f'<TryFrom<&str> for {T}>::try_from', ['as=x_from_ref', 'trait=XFromRef', f'extra=type ERef = {E};', f'retty=Result<Self, {E}>'])
        fn(f'<TryFrom<String> for {T}>::try_from', ['as=x_from_string', 'trait=XFromString', f'extra=type EString = {E};', f'retty=Result<Self, {E}>'])
        fn(f'<TryFrom<Box<str>> for {T}>::try_from', ['as=from_box', f'retty=Result<Self, {E}>'], f'{out}(value@, got_ok(r))')
        fn(f'<TryFrom<::std::borrow::Cow<str>> for {T}>::try_from', ['as=from_cow', f'retty=Result<Self, {E}>'], f'{out}(value.asv(), got_ok(r))')
    else:
        fn(f'<From<&str> for {T}>::from', ['as=from_ref'], f'{out}(value@, Some(r))')
        fn(f'<From<String> for {T}>::from', ['as=from_string'], f'{out}(value@, Some(r))')
        fn(f'<From<Box<str>> for {T}>::from', ['as=from_box'], f'{out}(value@, Some(r))')
        fn(f'<From<::std::borrow::Cow<str>> for {T}>::from', ['as=from_cow'], f'{out}(value.asv(), Some(r))')
        o.append(f'''// `TryFrom` is blanket over `From`
impl XFromRef for {T} {{ type ERef = Infallible; fn x_from_ref(value: &str) -> (r: Result<Self, Infallible>) {{ Ok({T}::from_ref(value)) }} }}
impl XFromString for {T} {{ type EString = Infallible; fn x_from_string(value: String) -> (r: Result<Self, Infallible>) {{ Ok({T}::from_string(value)) }} }}''')
    fn(f'<Serialize for {T}>::serialize', ['subst=S:XTextSer', 'retty=Result<XTextOk, XErr>'], 'r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())')
    if 'Deserialize' not in have:
        fn(f'<Deserialize for {T}>::deserialize', ['subst=D:XTextDe', 'retty=Result<Self, XErr>'], f'doc_post::<{T}>(deserializer@, r)')
    return '\n'.join(o) + '\n'
def generic(b, fn, arg, tr='XTextArg'):
    '''the contract block of a parse function, over every string type'''
    b = b.replace(fn, f'{fn} | as=parse<T: {tr}> | subst=T:T | keepgen', 1).replace(arg + '@', arg + '.asv()')
    if '//@proof start\n    proof {' in b:
        return b.replace('//@proof start\n    proof {', f'//@proof start\n    proof {{ x_arg_law({arg});', 1)
    return b + f'//@proof start\n    proof {{ x_arg_law({arg}); }}\n'
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if '=' not in x]
    kw = {k: v.split(',') for k, v in (x.split('=') for x in sys.argv[1:] if '=' in x)}
    print(forms(*a, **kw), end='')
