//! Initial universes, written in a small notation:
//! `[*]name [ver] [src] [lib=..] | dep | dep :: feature=entry,entry; ...`
//! dep: `toml[=pkg] flags`, pkg: name or name#n (n-th package of that name),
//! flags: b(uild) d(ev) ?(optional) -def +feature @platform ^req
use crate::model::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

static INTERN: Mutex<BTreeMap<String, S>> = Mutex::new(BTreeMap::new());
thread_local!(static LOCAL: RefCell<HashMap<String, S>> = RefCell::default());

pub fn intern(s: &str) -> S {
    LOCAL.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(r) = l.get(s) {
            return *r;
        }
        let mut g = INTERN.lock().unwrap();
        let r = *g
            .entry(s.to_owned())
            .or_insert_with(|| Box::leak(s.to_owned().into_boxed_str()));
        l.insert(s.to_owned(), r);
        r
    })
}

pub fn parse(text: &str) -> Universe {
    let lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let mut u = Universe { pkgs: vec![], members: vec![], root: None, cli: Cli::Default, platform: None };
    let mut bodies = Vec::new();
    for l in &lines {
        if let Some(c) = l.strip_prefix("platform ") {
            u.platform = Some(intern(c));
            continue;
        }
        if let Some(c) = l.strip_prefix("cli ") {
            u.cli = match c {
                "all" => Cli::All,
                "none" => Cli::NoDefault,
                f => Cli::Only(intern(f)),
            };
            continue;
        }
        let (head, feats) = l.split_once("::").unwrap_or((l, ""));
        let mut parts = head.split('|');
        let mut toks = parts.next().unwrap().split_whitespace();
        let mut name = toks.next().unwrap();
        let i = u.pkgs.len();
        if let Some(n) = name.strip_prefix("*!") {
            u.root = Some(i);
            u.members.push(i);
            name = n;
        } else if let Some(n) = name.strip_prefix('*') {
            u.members.push(i);
            name = n;
        }
        let member = u.is_member(i);
        let mut p = Pkg {
            name: intern(name),
            ver: "1.0.0",
            src: if member { Src::Path } else { Src::CratesIo },
            dir: intern(&if member { format!("/nx/ws/{name}") } else { String::new() }),
            lib: Lib::Plain,
            decls: vec![],
            feats: BTreeMap::new(),
        };
        for t in toks {
            if let Some(l) = t.strip_prefix("lib=") {
                p.lib = match l.split_once(':') {
                    Some((n, k)) => Lib::Named(intern(n), intern(k)),
                    None => match l {
                        "none" => Lib::BinOnly,
                        "proc-macro" | "rlib" | "dylib" | "cdylib" | "staticlib" => Lib::Kind(intern(l)),
                        n => Lib::Named(intern(n), "lib"),
                    },
                };
            } else if let Some(d) = t.strip_prefix("path:") {
                p.src = Src::Path;
                p.dir = intern(d);
            } else if let Some(g) = t.strip_prefix("git:") {
                let (url, q) = match g.split_once('?') {
                    Some((u, q)) => {
                        let (k, v) = q.split_once('=').unwrap();
                        (u, Some((intern(k), intern(v))))
                    }
                    None => (g, None),
                };
                p.src = Src::Git(intern(url), q);
            } else if let Some(r) = t.strip_prefix("reg:") {
                p.src = Src::Registry(intern(r));
            } else {
                p.ver = intern(t);
            }
        }
        u.pkgs.push(p);
        bodies.push((parts.map(|s| s.trim()).collect::<Vec<_>>(), feats));
    }
    let find = |u: &Universe, r: &str| -> usize {
        let (n, k) = r.split_once('#').unwrap_or((r, "0"));
        u.pkgs
            .iter()
            .enumerate()
            .filter(|(_, p)| p.name == n)
            .nth(k.parse().unwrap())
            .unwrap_or_else(|| panic!("no package {r}"))
            .0
    };
    for (i, (decls, feats)) in bodies.into_iter().enumerate() {
        for d in decls {
            let mut toks = d.split_whitespace();
            let head = toks.next().unwrap();
            let (toml, target) = match head.split_once('=') {
                Some((a, b)) => (a, b),
                None => (head.split('#').next().unwrap(), head),
            };
            let to = find(&u, target);
            let mut x = Decl {
                to,
                rename: (toml != u.pkgs[to].name).then(|| intern(toml)),
                kind: Kind::Normal,
                optional: false,
                default: true,
                feats: vec![],
                target: None,
                req: None,
                patched: false,
            };
            let rest: Vec<&str> = toks.collect();
            let mut k = 0;
            while k < rest.len() {
                match rest[k] {
                    "b" => x.kind = Kind::Build,
                    "d" => x.kind = Kind::Dev,
                    "?" => x.optional = true,
                    "patched" => x.patched = true,
                    "-def" => x.default = false,
                    t if t.starts_with('+') => {
                        x.feats.extend(t[1..].split('+').map(|f| intern(&f.replace('~', "+"))));
                    }
                    t if t.starts_with('^') => x.req = Some(intern(&t[1..])),
                    t if t.starts_with('@') => {
                        // platform strings may contain blanks: take the rest
                        let s = rest[k..].join(" ");
                        x.target = Some(intern(&s[1..]));
                        k = rest.len();
                    }
                    t => panic!("flag {t}"),
                }
                k += 1;
            }
            u.pkgs[i].decls.push(x);
        }
        for f in feats.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()) {
            let (n, v) = f.split_once('=').unwrap();
            let v = v.split(',').map(|s| s.trim()).filter(|s| !s.is_empty()).map(intern).collect();
            u.pkgs[i].feats.insert(intern(&n.trim().replace('~', "+")), v);
        }
    }
    u
}

pub const BASES: &[(&str, &str)] = &[
    ("chain", "
        *w | a
        a | b +f :: default=f; f=
        b :: default=; f="),
    ("kinds", "
        *w | a | b b | c d
        a | c
        b | c
        c"),
    ("members", "
        *w | a | c d
        *v | w | b
        a | b ?
        b
        c | b"),
    ("root", "
        *!w path:/nx/ws | a | v
        *v | b :: default=f; f=
        *x | c
        a
        b
        c"),
    ("optional", "
        *w | a +f
        a | b ? | c ? :: f=dep:b; g=c/x,dep:c
        b :: x=
        c :: x=; y="),
    ("weak", "
        *w | a +f+g
        a | b ? :: f=b?/x; g=dep:b
        b | c ? :: x=dep:c
        c"),
    ("weak-off", "
        *w | a +f | d
        a | b ? | c :: f=b?/x; g=dep:b
        d | b ?
        b | c ? +y :: x=c
        c :: y="),
    ("implicit", "
        *w | a +b
        a | b ? | c ? :: f=b; g=b/x,c?/y
        b :: x=
        c :: y="),
    ("strong-same-name", "
        *w | a +f+g
        a | b ? | c ? | r=d ? | e ? :: f=b/x; b=dep:b,z; z=dep:c; g=r/x; r=dep:r,y; y=dep:e
        b :: x=
        c
        d :: x=
        e"),
    ("rename", "
        *w | r=b +x | c
        b | q=d ? :: x=dep:q; y=q/z
        c | b
        d :: z="),
    ("versions", "
        *w | b +x | b2=b#1 +y
        b 1.0.0 :: x=; y=
        b 2.0.0 | c ? :: x=; y=dep:c
        c"),
    ("swapped", "
        *w | foo=bar +x | bar=baz +y
        bar :: x=
        baz :: y=
        foo"),
    ("targets", "
        *w | a @cfg(unix) | b @cfg(windows) | c @x86_64-unknown-linux-gnu | d b @cfg(any())
        a | d
        b | c
        c
        d"),
    ("same-key-by-target", "
        *w | b#0 ? @cfg(unix) | b#1 ? @cfg(windows) | a +f :: f=dep:b; g=b/x; default=f
        a | b#0 ? | b#1 b ? :: f=b/x
        b 1.0.0 :: x=
        b 2.0.0 :: x="),
    ("git", "
        *w | g | g2=g#1 | h | g4=g#2
        g 1.0.0 git:https://h.io/u/g?branch=one
        g 1.0.0 git:https://h.io/u/g?branch=feat/two :: f=
        g 1.0.0 git:https://h.io/u/g?branch=feat/two#3 :: f=; x=
        h 1.0.0 git:https://h.io/u/mono?tag=v1 | g3=g#1 +f
        "),
    ("sources", "
        *w | s | s2=s#1 ^1 | s3=s#2 | s4=s#3
        s 1.0.0
        s 1.0.0 path:/nx/ext/s :: f=
        s 1.0.0 git:https://h.io/u/s
        s 1.0.0 reg:registry+https://r.io/index"),
    ("dev-cycle", "
        *w | a | b d :: f=
        a
        b path:/nx/ext/b | w +f"),
    ("dashes", "
        *w-w | a-b ? | c_d | e-e=f-f :: a-b=dep:a-b; t=a-b/x,e-e/y; default=t
        a-b :: x=
        c_d
        f-f :: y="),
    ("librename", "
        *w | md-5 ? | a :: default=hash; hash=md-5/x
        md-5 lib=md5 :: x=
        a | md-5 ? :: f=dep:md-5"),
    ("lib-kinds", "
        *w | p +x | c ? :: default=f; f=c/x
        p lib=proc-macro | d ? :: x=dep:d
        c lib=cc:rlib :: x=
        d lib=dd:proc-macro"),
    ("one-lib-two-names", "
        *w | m2=m | m ? b | c ? b | c2=c | s2=s d | s ? :: f=m2/y; default=f
        m lib=mm:proc-macro :: x=; y=; default=x
        c lib=cc:cdylib :: x=; y=; default=x
        s lib=ss:cdylib+rlib | r2=r | r ? b | d ? -def +y | d2=d b | t2=t b | t ? :: x=; default=x
        r lib=rr:rlib :: x=; default=x
        d lib=dd:dylib :: x=; y=; default=x
        t lib=tt:staticlib :: x=; default=x"),
    ("two-names-one-extern-name", "
        *w | m5=m-5 -def +y | m-5 +x | a
        m-5 lib=m5 :: x=; y=; z=; default=z
        a | m5=m-5 ? -def +x | m-5 -def +y b :: default=m5"),
    ("mixed-optional", "
        *w | b ? | b d +y :: f=b?/x; g=dep:b
        b | c ? :: x=dep:c; y=
        c"),
    ("mixed-kinds", "
        *w | b +x | b b +y | a
        a | b ? b :: f=b/x
        b | c ? :: x=; y=dep:c; default=
        c"),
    ("deep-features", "
        *w | a :: default=f; f=a/f
        a | b ? -def :: default=; f=b/f; g=f
        b | c ? -def | d ? :: f=c,d?/f; g=dep:d
        c
        d :: f="),
    ("feature-cycle", "
        *w | a +f
        a | b ? :: f=g; g=f,b
        b :: default=f; f="),
    ("prerelease", "
        *w | a | b | c
        a 1.0.0-alpha.1 path:/nx/ext/a
        b 0.2.0-rc.1 git:https://h.io/u/b
        c 1.0.0-beta+build.5"),
    ("bin-dep", "
        *w | a | b ? :: f=b/x,dep:b; default=f
        a
        b path:/nx/ext/b lib=none | c :: x=
        c"),
    ("twin-names", "
        *w | x-y +f | x_y +g
        x-y :: f=
        x_y :: g="),
    ("near-names", "
        *w | a-b=zz ? | axb ? | abcd | a_b=a-bx b ? :: f=axb/x; g=dep:a-b; h=a-b/x; default=f,h
        zz :: x=
        axb | a-bx b ? | a-b ? :: x=; y=a-bx/x,a-b/x
        a-bx :: x=; X=
        a-b :: x=
        abcd | a_c=a-b ? | axc=axb ? :: x=a_c/x; y=axc/x; default=x,y"),
    ("monorepo", "
        *w | a +x | b ? | c2=c#1 :: f=b/y
        a 1.0.0 git:https://h.io/u/mono?branch=dev | c ? | b | c2=c#1 ? :: x=c/y; y=c2/y
        b 1.0.0 git:https://h.io/u/mono?branch=dev lib=bb | c b :: y=
        c 1.0.0 git:https://h.io/u/mono?branch=dev :: y=
        c 1.0.0 :: y="),
    ("one-extern-name", "
        *w | m5=m-5#1 | m-5 +x | a
        m-5 1.0.0 git:https://h.io/u/mono?branch=a#b lib=m5 :: x=
        m-5 1.0.0 lib=m5 :: x=; default=x
        a 1.0.0 git:https://h.io/u/mono?branch=a#b | m5=m-5#1 | m-5 ? :: default=m-5"),
    ("one-extern-name-versions", "
        *w | m5=m-5#1 | m-5 +x ? | a :: default=m-5
        m-5 1.0.0-alpha.1 lib=m5 :: x=
        m-5 2.0.0 lib=m5 :: x=; default=x
        a | m5=m-5#1 ? | m-5 ? :: default=m-5"),
    ("one-extern-name-paths", "
        *w | m-5 +x | m5=m-5#1 | a
        m-5 1.0.0 path:/nx/ext/two lib=m5 :: x=
        m-5 2.0.0 path:/nx/ext/one lib=m5 :: x=; default=x
        *a | m5=m-5#1 ? | m-5 patched ? :: default=m-5"),
    ("patched", "
        *w | a +x | p ? patched | v | g2=g :: f=dep:p; default=f
        *v | p | g2=g patched ?
        a | p patched | v patched d | g ? patched :: x=p/y; z=g/y
        p path:/nx/ext/p | g ? patched :: y=g/y
        g 1.0.0 git:https://h.io/u/g :: y="),
    ("no-deps", "
        *w"),
    ("all-cli", "
        *w | a ? | b ? | c :: default=a; f=dep:b; g=c/z
        a
        b
        c :: z=
        cli all"),
    ("shared-member", "
        *w | m +f | a d
        *m | a ? | b b :: default=g; f=dep:a; g=
        a | b
        b"),
    ("platform", "
        *w | a ? @cfg(unix) | a b @cfg(windows) | b @cfg(windows) | c @x86_64-unknown-linux-gnu :: f=dep:a,a/x; default=f
        a | b ? @cfg(unix) | c b +y @cfg(windows) :: x=b/z
        b | c @cfg(not(unix)) :: z=
        c :: y=
        platform x86_64-unknown-linux-gnu"),
    ("platform-windows", "
        *w | a ? | a +x -def @cfg(windows) | b#0 @cfg(unix) | b#1 @cfg(windows) :: f=a/y; default=
        *v | a b @cfg(unix) :: g=
        a | b#1 ? :: x=dep:b; y=b?/z; default=x
        b 1.0.0
        b 2.0.0 :: z=
        platform x86_64-pc-windows-msvc"),
    ("fan", "
        *w | a | b | c
        a | d +x
        b | d +y -def
        c | d -def
        d | e ? | e2 ? :: default=z; x=dep:e; y=dep:e2; z=
        e
        e2"),
    ("dev-forward", "
        *w | v +fast
        *v | a d | b ? | c d | c ? :: fast=a/go,b?/go,c?/go; on=dep:b,c
        a :: go=more; more=
        b | a ? :: go=a/more
        c :: go=; default="),
];

/// Larger ones, explored less deeply
pub const LARGE: &[(&str, &str)] = &[
    ("long-chain", "
        *w | a | f -def +deep :: default=a/go
        a | b :: default=; go=b/go
        b | c -def :: default=std; go=c/go; std=
        c | d ? -def | e ? :: default=e; go=d/go,e?/go; e=dep:e
        d | e -def :: default=x; go=e/go; x=
        e | f ? :: default=; go=dep:f,f/deep
        f | g ? -def | h :: default=h/x; deep=g/x
        g :: x=y; y=; default=
        h :: x="),
    ("many-versions", "
        *w | x | x2=x#1 +b | a | b | c b
        *v | x#1 -def +a | x-old=x b +b | d
        a | x#1 | x1=x#0 ? +a :: old=x1/b; default=old
        b | y=x#2 +c | x ? :: default=y/d
        c | x#2 d
        d | y | y2=y#1 +b
        x 1.0.0 :: a=b; b=; default=a
        x 2.0.0 | y ? :: a=; b=dep:y; default=b
        x 0.3.1 :: c=; d=c
        y 1.1.0
        y 2.0.0-rc.1 :: b="),
    ("workspace", "
        *w | v | u d | t b :: default=fast; fast=v/fast
        *v | u ? | w d | a :: fast=dep:u,a/fast; slow=
        *u | t | v d +slow | b d :: default=
        *t | c | c d +x | d b
        *s | s2=a -def | w
        a | b ? :: fast=b/fast; default=b?/slow
        b :: fast=; slow=fast
        c | d :: x=
        d | b +slow"),
    ("platforms", "
        *w | a @cfg(unix) | a -def @cfg(windows) | b @cfg(all(unix, target_os = \"linux\")) | c b @cfg(not(windows)) | d ? @cfg(windows) | e @x86_64-unknown-linux-gnu :: default=d; d=dep:d
        a | f @cfg(target_os = \"macos\") | f +x @cfg(target_os = \"linux\") | g ? @cfg(windows) :: default=g; on=g/y
        b | g b @cfg(unix) | h @cfg(target_arch = \"wasm32\")
        c | h | a -def +on @cfg(any(windows, unix))
        d | e
        e | h @x86_64-pc-windows-msvc
        f :: x=y; y=
        g | h :: y=
        h"),
    ("odd-names", "
        *w-1_x | a_b-c +c~~20 | dep +dep | x0=x-2_ ? :: default=0x; 0x=x0/a.b; feat-x_y=a_b-c/default
        a_b-c | dep ? | core ? | d-e-f=d_e_f :: default=; c~~20=d-e-f/f_1; f-1=dep:core; core=dep/dep
        dep | a-b_c ? :: dep=a; a=dep:a-b_c
        x-2_ :: a.b=a-b; a-b=a_b; a_b=
        d_e_f :: f_1=f-1; f-1=
        core
        a-b_c | core"),
    ("build-chain", "
        *w | mac | sys b +gen | a
        mac lib=proc-macro | syn | quo b :: x=syn/full
        syn | uni :: full=uni/t; default=
        quo | uni b | pkg
        sys lib=sys_rs | cc b | a ? | pkg b ? :: gen=pkg/x; default=a; a=dep:a; pkg=dep:pkg
        cc | job ? :: parallel=dep:job
        job
        pkg | cc +parallel :: x=
        a | cc b -def | mac +x
        uni :: t="),
    ("weak-chain", "
        *w | a +x+y | z +on
        a | b ? | c ? | d ? :: x=b?/x,c?/x; y=dep:b,z; z=c?/y; late=dep:c
        b | c ? | d ? :: x=c?/x,d; d=dep:d
        c | d ? :: x=d?/q; y=dep:d
        d | e ? :: q=e?/r,e; e=dep:e; default=q
        e :: r=
        z | a ? -def +late :: on=a/x,a"),
    ("places", "
        *w | p | g | g-sub | r | p2=p#1 ^1 | x
        *v path:/nx/ws/sub/v | p | w d | g
        p path:/nx/ext/p | q | g ? :: default=g; g=dep:g
        q path:/nx/ext/p/q | x
        p 1.0.0 | x +n
        g 1.0.0 git:https://h.io/u/g | g-sub +s
        g-sub 2.1.0 git:https://h.io/u/g | x :: s=
        r 1.0.0 reg:registry+https://r.io/index | x | r-x=r#1 ? :: default=r-x
        r 1.0.0
        x | y ? :: n=y; y=dep:y
        y"),
];

pub fn all() -> Vec<(S, Universe)> {
    BASES.iter().map(|(n, t)| (*n, parse(t))).collect()
}

pub fn large() -> Vec<(S, Universe)> {
    LARGE.iter().map(|(n, t)| (*n, parse(t))).collect()
}
