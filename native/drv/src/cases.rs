//! Declarations that must be rejected / accepted.
use crate::Rng;

/// Places one variant among well-formed ones.
fn contexts(item_attrs: &str, variant: &str, rng: &mut Rng, ok: bool, all: bool) -> Vec<String> {
    if ok {
        // Surround it with variants whose routes cannot overlap the routes under test
        // (which are all shorter than three segments, or end in a rest under `/a`, `/b`, `/q`).
        let others = [
            "#[get(\"/z/z/z/zz1\")] Zz1",
            "#[put(\"/z/z/z/zz2/{k}\")] #[post(\"/z/z/z/zz3/{k}/x\")] Zz2 { k: u8, #[body] bb: u8, gg: u8 }",
            "Zz3 { unused: u8 }",
            "#[delete(\"/z/z/z/zz4/z/{a}/{b...}\")] Zz4 { b: u8, #[query_params] q: u8, a: u8 }",
        ];
        let mut out = vec![
            format!("{} enum R {{ {} }}", item_attrs, variant),
            format!("{} enum R {{ {}, {} }}", item_attrs, variant, others[0]),
            format!("{} enum R {{ {}, {} }}", item_attrs, others[1], variant),
            format!("{} enum R {{ {}, {}, {}, {} }}", item_attrs, others[2], others[0], variant, others[3]),
            format!("{} enum R<T> {{ {}, #[get(\"/z/z/z/zz5\")] Gen {{ g: T }} }}", item_attrs, variant),
            format!("#[context(Foo)] enum R {{ {}, {} }}", others[3], variant),
        ];
        if !all {
            let k = rng.below(out.len());
            let first = out[0].clone();
            let x = out.swap_remove(k);
            out = vec![first, x];
        }
        return out;
    }
    let others = [
        "#[get(\"/zz1\")] Zz1",
        "#[put(\"/zz2/{k}\")] #[post(\"/zz3/{k}/x\")] Zz2 { k: u8, #[body] bb: u8, gg: u8 }",
        "Zz3 { unused: u8 }",
        "#[delete(\"/zz4/{a}/{b...}\")] Zz4 { b: u8, #[query_params] q: u8, a: u8 }",
    ];
    let mut out = vec![
        format!("{} enum R {{ {} }}", item_attrs, variant),
        format!("{} enum R {{ {}, {} }}", item_attrs, variant, others[0]),
        format!("{} enum R {{ {}, {} }}", item_attrs, others[1], variant),
        format!("{} enum R {{ {}, {}, {}, {} }}", item_attrs, others[2], others[0], variant, others[3]),
        format!("{} enum R<T> {{ {}, #[get(\"/zz5\")] Gen {{ g: T }} }}", item_attrs, variant),
        format!("#[context(Foo)] enum R {{ {}, {} }}", others[3], variant),
    ];
    if !all {
        let k = rng.below(out.len());
        let first = out[0].clone();
        let x = out.swap_remove(k);
        out = vec![first, x];
    }
    out
}

pub fn from_request(rng: &mut Rng, thorough: bool) -> Vec<(bool, String)> {
    let mut out: Vec<(bool, String)> = vec![];
    let mut variant = |ok: bool, v: &str, rng: &mut Rng| {
        for s in contexts("", v, rng, ok, thorough || !ok) {
            out.push((ok, s));
        }
    };
    let methods = ["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch"];
    // ---- paths
    for m in &methods {
        for p in ["", "a", "{x}", "*a", "**", "*/", " /a", "a/b", "{x...}", "?", "http://a/b", "\\\\/"].iter() {
            variant(false, &format!("#[{}(\"{}\")] A {{ x: u8 }}", m, p), rng);
        }
        for p in ["/", "//", "/a", "/a/", "/a//b", "/a.b", "/*", "/a*", "/(", "/[a", "/a|b", "/\\\\d", "/a{b", "/}a", "/a}", "/^$", "/a?b", "/a b", "/%20", "/...", "/é", "/{", "/}", "/x{y}", "/{y}x"].iter() {
            variant(true, &format!("#[{}(\"{}\")] A {{ x: u8 }}", m, p), rng);
        }
        variant(true, &format!("#[{}(\"*\")] A", m), rng);
        variant(true, &format!("#[{}(\"/{{x}}\")] A {{ x: u8 }}", m), rng);
        variant(true, &format!("#[{}(\"/a/{{x...}}\")] A {{ x: u8 }}", m), rng);
    }
    // ---- placeholders
    for p in ["", "1a", "a-b", "_", "a b", " a", "a ", "a.", "a..", "-", "a+", "a:b", "9", "a{", "{a}", "...", "1a...", "_...", "a....", " ...", ".", "a.b...", "a\\\\"].iter() {
        variant(false, &format!("#[get(\"/{{{}}}\")] A {{ a: u8, b: u8 }}", p), rng);
        variant(false, &format!("#[get(\"/x/{{{}}}\")] A {{ a: u8, b: u8 }}", p), rng);
        if !p.contains('/') {
            variant(false, &format!("#[get(\"/{{{}}}/y\")] A {{ a: u8, b: u8 }}", p), rng);
        }
    }
    for p in ["a", "A", "__", "_0", "a0_", "aB", "zz9", "x_y_z"].iter() {
        variant(true, &format!("#[get(\"/{{{}}}\")] A {{ {}: u8 }}", p, p), rng);
        variant(true, &format!("#[get(\"/q/{{{}...}}\")] A {{ h: u8, {}: u8 }}", p, p), rng);
        variant(false, &format!("#[get(\"/{{{}}}\")] A {{ {}x: u8 }}", p, p), rng);
        variant(false, &format!("#[get(\"/{{{}}}\")] A", p), rng);
        variant(false, &format!("#[get(\"/q/{{{}...}}\")] A {{}}", p), rng);
        // repeated
        variant(false, &format!("#[get(\"/{{{}}}/{{{}}}\")] A {{ {}: u8 }}", p, p, p), rng);
        variant(false, &format!("#[get(\"/{{{}}}/x/{{{}...}}\")] A {{ {}: u8 }}", p, p, p), rng);
        variant(false, &format!("#[get(\"/{{{}}}/{{other}}/{{{}}}\")] A {{ {}: u8, other: u8 }}", p, p, p), rng);
        variant(false, &format!("#[get(\"/{{other}}/{{{}}}/{{{}}}\")] A {{ {}: u8, other: u8 }}", p, p, p), rng);
        variant(false, &format!("#[get(\"/{{{}}}/{{zz}}/{{Aa}}/{{{}}}\")] A {{ {}: u8, zz: u8, Aa: u8 }}", p, p, p).replace("zz9: u8, zz: u8", "zz9: u8, zz: u8"), rng);
        // rest not at the end
        for tail in ["/", "/x", "/{other}", "/{other...}", "//", "/x/y"].iter() {
            variant(false, &format!("#[get(\"/{{{}...}}{}\")] A {{ {}: u8, other: u8 }}", p, tail, p), rng);
            variant(false, &format!("#[get(\"/b/{{{}...}}{}\")] A {{ {}: u8, other: u8 }}", p, tail, p), rng);
        }
    }
    // ---- several routes of one variant
    let two = |a: &str, b: &str| format!("#[get(\"{}\")] #[post(\"{}\")] A {{ a: u8, b: u8, c: u8 }}", a, b);
    for (a, b) in [
        ("/{a}", "/x"), ("/x", "/{a}"), ("/{a}", "/{b}"), ("/{a}/{b}", "/{b}/{a}"), ("/{a}/{b}", "/{a}"), ("/{a}", "/{a}/{b}"), ("/{a}/{b}/{c}", "/{a}/{c}/{b}"), ("*", "/{a}"),
        ("/{a}/x", "*"), ("/{a...}", "/{b...}"), ("/{a}/{b...}", "/{a...}"), ("/x/{a}/{b}", "/y/{a}/{c}"),
    ].iter() {
        variant(false, &two(a, b), rng);
    }
    variant(false, "#[get(\"/{a}/1\")] #[put(\"/{a}/2\")] #[post(\"/{b}/3\")] A { a: u8, b: u8 }", rng);
    for (a, b) in [("/{a}", "/{a}"), ("/{a}/{b}", "/x/{a}/y/{b}"), ("/x", "/y"), ("/{a}", "/q/{a...}"), ("/{a}/{b}/{c}", "/{a}/{b}/w/{c}"), ("*", "/x")].iter() {
        variant(true, &two(a, b), rng);
    }
    // ---- attributes on variants
    for m in &methods {
        for bad in ["#[M]", "#[M = \"/x\"]", "#[M()]", "#[M(\"/a\", \"/b\")]", "#[M(a)]", "#[M(1)]", "#[M(a = \"/x\")]", "#[M(true)]"].iter() {
            variant(false, &format!("{} A", bad.replace('M', m)), rng);
            variant(false, &format!("#[get(\"/ok\")] {} A", bad.replace('M', m)), rng);
            variant(false, &format!("{} #[get(\"/ok\")] A", bad.replace('M', m)), rng);
        }
        // on fields
        for bad in ["#[M]", "#[M(\"/x\")]", "#[M = \"/x\"]"].iter() {
            variant(false, &format!("#[get(\"/ok\")] A {{ {} f: u8 }}", bad.replace('M', m)), rng);
        }
    }
    for at in ["body", "forward", "query_params", "context"].iter() {
        for form in ["#[X]", "#[X(u8)]", "#[X = \"y\"]"].iter() {
            let form = form.replace('X', at);
            variant(false, &format!("{} #[get(\"/ok\")] A", form), rng);
            variant(false, &format!("#[get(\"/ok\")] {} A", form), rng);
            variant(false, &format!("{} A", form), rng);
        }
    }
    // ---- attributes on fields
    for at in ["body", "forward", "query_params"].iter() {
        for form in ["#[X(u8)]", "#[X = \"y\"]", "#[X()]", "#[X] #[X]", "#[X(\"a\")]"].iter() {
            let form = form.replace('X', at);
            variant(false, &format!("#[get(\"/ok\")] A {{ g: u8, {} f: u8 }}", form), rng);
        }
        variant(false, &format!("#[get(\"/ok\")] A {{ #[{}] f: u8, #[{}] g: u8 }}", at, at), rng);
        variant(false, &format!("#[get(\"/ok\")] A {{ #[{}] f: u8, x: u8, #[{}] g: u8 }}", at, at), rng);
        variant(false, &format!("#[get(\"/{{f}}\")] A {{ #[{}] f: u8 }}", at), rng);
        variant(false, &format!("#[get(\"/x/{{f...}}\")] A {{ g: u8, #[{}] f: u8 }}", at), rng);
        variant(false, &format!("#[get(\"/{{e}}/{{f}}\")] A {{ e: u8, #[{}] f: u8 }}", at), rng);
        variant(true, &format!("#[get(\"/ok\")] A {{ #[{}] f: u8 }}", at), rng);
        variant(true, &format!("#[get(\"/{{e}}\")] A {{ #[{}] f: u8, e: u8, g: u8 }}", at), rng);
        variant(false, &format!("#[get(\"/ok\")] A(#[{}] u8)", at), rng);
        for at2 in ["body", "forward", "query_params"].iter() {
            if at != at2 {
                variant(false, &format!("#[get(\"/ok\")] A {{ #[{}] #[{}] f: u8 }}", at, at2), rng);
                variant(false, &format!("#[get(\"/ok\")] A {{ #[{}] /// doc\n #[{}] f: u8 }}", at, at2), rng);
                let both = [*at, *at2];
                let bad = both.contains(&"body") && both.contains(&"forward");
                variant(!bad, &format!("#[get(\"/ok\")] A {{ #[{}] f: u8, #[{}] g: u8 }}", at, at2), rng);
                variant(!bad, &format!("#[get(\"/ok/{{h}}\")] A {{ #[{}] f: u8, h: u8, #[{}] g: u8, i: u8 }}", at, at2), rng);
            }
        }
        variant(false, "#[get(\"/ok\")] A { #[context] f: u8 }", rng);
        variant(false, "#[get(\"/ok\")] A { #[context(u8)] f: u8 }", rng);
    }
    // ---- no route
    for at in ["body", "query_params"].iter() {
        let v = format!("A {{ #[{}] f: u8 }}", at);
        variant(false, &v, rng);
        variant(false, &format!("A {{ g: u8, #[{}] f: u8 }}", at), rng);
        variant(false, &format!("A {{ #[forward] g: u8, #[{}] f: u8 }}", at), rng);
        variant(false, &format!("A {{ #[{}] f: u8, h: u8, #[forward] g: u8 }}", at), rng);
    }
    variant(true, "A { #[forward] f: u8 }", rng);
    variant(true, "A { g: u8, #[forward] f: u8, h: u8 }", rng);
    // ---- tuple variants
    for v in ["#[get(\"/\")] A(u8)", "#[get(\"/\")] A(u8, u8)", "A(#[forward] u8)", "#[get(\"/\")] A()"].iter() {
        variant(false, v, rng);
    }
    // ---- fine
    for v in [
        "#[get(\"/\")] A {}", "#[get(\"/\")] A", "#[foo] #[get(\"/\")] A", "#[foo(a::b)] #[get(\"/\")] A { #[foo(x + y)] f: u8 }", "#[rustfmt::skip] #[get(\"/\")] A",
        "/// docs\n #[get(\"/\")] /* c */ A { /// docs\n f: u8 }", "#[get(\"/\")] #[get(\"/b\")] #[post(\"/b\")] A", "#[get(\"/\")] A { r#type: u8, #[body] r#fn: u8 }",
        "#[get(r\"/x\")] A", "#[get(\"/{a}/{b}/{c}/{d}/{e}\")] A { e: u8, d: u8, c: u8, b: u8, a: u8 }", "#[cfg(all())] #[get(\"/\")] A { #[cfg(all())] x: u8 }",
        "#[get(\"/\")] A { a: Vec<Option<(u8, [u8; 3])>>, b: fn(u8) -> u8, c: Box<dyn Fn() + Send> }", "#[get(\"/x\")] #[head(\"/x\")] A", "#[head(\"/x\")] A",
        "#[allow(unused)] #[get(\"/{x}\")] A { #[allow(unused)] x: u8 }", "#[other::body] #[get(\"/\")] A { #[my::body] x: u8, #[serde(with = \"a::b\")] y: u8 }",
    ].iter() {
        variant(true, v, rng);
    }
    // ---- whole items
    let item = |ok: bool, s: &str, out: &mut Vec<(bool, String)>| out.push((ok, s.to_string()));
    for at in ["#[get(\"/\")]", "#[get]", "#[body]", "#[forward]", "#[query_params]", "#[post = \"/\"]", "#[context(A)] #[context(B)]", "#[context(A)] #[context(A)]", "#[context]", "#[context = \"A\"]", "#[context(\"A\")]"].iter() {
        item(false, &format!("{} enum R {{ #[get(\"/\")] A }}", at), &mut out);
    }
    for at in ["", "#[context(A)]", "#[context(a::B)]", "#[context(A<u8>)]", "#[context(::a::B<'static, (u8, C)>)]", "#[foo]", "#[foo(a::b, +)]", "#[rustfmt::skip]", "/// doc\n", "#[derive(Debug)]", "#[serde(rename_all = \"x\")] #[context(A)]", "#[x::context(Q)]"].iter() {
        item(true, &format!("{} enum R {{ #[get(\"/\")] A }}", at), &mut out);
        item(true, &format!("{} struct R {{ #[forward] a: u8 }}", at), &mut out);
        item(true, &format!("{} #[get(\"/\")] struct R {{ a: u8 }}", at), &mut out);
        item(true, &format!("{} #[get(\"/\")] #[post(\"/\")] struct R;", at), &mut out);
        item(true, &format!("{} #[get(\"/{{a}}\")] struct R<T> {{ a: T, #[body] b: u8 }}", at), &mut out);
        item(true, &format!("{} pub(crate) enum R<'a, T: 'a, U> where U: Clone {{ #[get(\"/{{t}}\")] A {{ t: T, g: U }}, #[put(\"/q/x\")] B {{ #[body] b: &'a T }} }}", at), &mut out);
    }
    for s in [
        "enum R {}", "enum R { A }", "enum R { A, B { x: u8 } }", "struct R;", "struct R {}", "struct R { a: u8 }", "struct R { #[body] a: u8 }", "struct R { #[query_params] a: u8 }",
        "struct R { #[forward] a: u8, #[body] b: u8 }", "#[get(\"/\")] struct R { #[forward] a: u8, #[body] b: u8 }", "#[get(\"/\")] struct R(u8);", "struct R(#[forward] u8);", "#[get(\"/\")] struct R();",
        "#[get] struct R { #[forward] a: u8 }", "#[get = \"/\"] struct R { #[forward] a: u8 }", "#[body] struct R { #[forward] a: u8 }", "#[forward] struct R { #[forward] a: u8 }",
        "#[query_params] #[get(\"/\")] struct R { a: u8 }", "#[get(\"/{x}\")] struct R { y: u8 }", "#[get(\"/{x}\")] struct R;", "struct R { #[forward] a: u8, #[query_params] b: u8 }",
        "#[context(A)] #[context(B)] struct R { #[forward] a: u8 }", "#[context] struct R { #[forward] a: u8 }",
        "#[get(\"/{x}/{x}\")] struct R { x: u8 }", "#[get(\"/{x}\")] #[post(\"/{y}\")] struct R { x: u8, y: u8 }", "#[get(\"/\")] #[get(\"/\")] struct R;",
        "enum R { A { #[forward] a: u8 }, B { #[forward] a: u8 } }", "enum R { A { #[forward] a: u8 }, #[get(\"/\")] X, B { b: u8, #[forward] a: u8 } }",
        "enum R { #[get(\"/\")] X { #[forward] z: u8 }, A { #[forward] a: u8 }, B { #[forward] a: u8 } }", "struct R { #[forward] a: u8, #[forward] b: u8 }",
        "struct R { #[forward] #[forward] a: u8 }", "struct R { #[forward = \"x\"] a: u8 }", "struct R { #[forward()] a: u8 }", "union R { a: u8 }", "union R { #[forward] a: u8, b: u8 }",
        "#[get(\"/\")] union R { a: u8 }",
    ].iter() {
        item(false, s, &mut out);
    }
    for s in [
        "struct R { #[forward] a: u8 }", "struct R { #[forward] a: u8, g: u8 }", "#[get(\"/\")] struct R;", "#[get(\"/\")] struct R {}", "#[get(\"/{x}\")] #[put(\"/a/{x}\")] struct R { x: u8, #[query_params] q: u8, #[forward] f: u8 }",
        "enum R { A { #[forward] a: u8 }, B, C { x: u8 } }", "enum R { #[get(\"/\")] X { #[forward] z: u8 }, #[put(\"/\")] Y { #[forward] z: u8 }, A { #[forward] a: u8 } }", "enum R { N, #[get(\"/\")] A, M() }",
    ].iter() {
        item(true, s, &mut out);
    }
    out
}

pub fn request_context() -> Vec<(bool, String)> {
    let mut out = vec![];
    for s in [
        "#[as_ref] struct S { a: u8 }", "#[as_ref] struct S;", "#[as_ref] enum E { A }", "enum E { #[as_ref] A }", "enum E { B, #[as_ref] A { x: u8 } }", "enum E { A { #[as_ref] x: u8 } }",
        "enum E { Z, A(#[as_ref] u8) }", "enum E { A { y: u8, #[as_ref] x: u8 }, Z }", "struct S { #[as_ref()] a: u8 }", "struct S { #[as_ref(x)] a: u8 }", "struct S { #[as_ref = \"x\"] a: u8 }", "struct S(#[as_ref(u8)] u8);", "struct S(u16, #[as_ref = \"no\"] u8);",
        "struct S { #[as_ref] #[as_ref] a: u8 }", "struct S(#[as_ref] #[as_ref] u8);", "struct S { z: u8, #[as_ref] /// doc\n #[as_ref] a: u8 }", "struct S { #[as_ref] b: u16, #[as_ref] #[as_ref] #[as_ref] a: u8 }",
        "struct S { #[as_ref] #[as_ref(x)] a: u8 }", "union U { #[as_ref] a: u8 }", "union U { b: u16, #[as_ref] a: u8 }", "#[as_ref] union U { a: u8 }", "#[as_ref(x)] struct S { a: u8 }", "#[as_ref = \"1\"] enum E { A }",
        "struct S { #[as_ref(a + b)] a: u8 }", "#[as_ref(a+b)] struct S { a: u8 }", "enum S { #[as_ref[x y]] A }", "struct S(#[as_ref{}] u8);", "struct S(u8, #[as_ref[]] u16);", "struct S { #[as_ref = -1] a: u8 }",
        "enum E { A { #[as_ref(,)] a: u8 } }", "struct S { #[as_ref] #[as_ref(a+b)] a: u8 }", "union U { #[as_ref(::)] a: u8 }",
        "enum E { #[as_ref(q)] A }", "enum E { A { #[as_ref = \"q\"] x: u8 } }", "#[foo] #[as_ref] struct S { a: u8 }", "struct S<T> { #[as_ref()] a: T }",
    ].iter() {
        out.push((false, s.to_string()));
    }
    for s in [
        "struct S;", "struct S();", "struct S {}", "struct S { a: u8 }", "struct S { #[as_ref] a: u8 }", "struct S(#[as_ref] u8);", "struct S(u8, #[as_ref] u16);", "struct S { #[as_ref] a: u8, b: u8, #[as_ref] c: u16 }",
        "enum E {}", "enum E { A, B(u8), C { x: u8 } }", "struct S<T> { #[as_ref] a: Vec<T> }", "#[foo] struct S { #[foo(x)] a: u8, #[serde(as_ref)] b: u8 }", "#[derive(Debug)] enum E { #[foo] A { #[bar] x: u8 } }",
        "struct S<'a, T: Clone> where T: 'a { /// doc\n #[as_ref] a: u16, b: &'a T }", "struct S { #[doc = \"as_ref\"] a: u8, #[as_ref] #[allow(unused)] b: u16 }", "struct S { #[rustfmt::skip] a: u8 }",
    ].iter() {
        out.push((true, s.to_string()));
    }
    out
}
