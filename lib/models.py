"""Generates, from /repo's current source, the copy of the crate that is encoded against model
containers (mc/), plus the two harness crates over it. Everything lands in the build directory."""
import os, re, shutil

REPO = '/repo'
COMMON = ['nd', 'suite', 'uni']
# model containers of the usual and of a smaller capacity, and the harness crates over each
MODULES = {'': {'kani': ['h_coll', 'h_list', 'h_hash', 'h_btree'], 'kani-array': ['h_key', 'h_arr']},
           '-small': {'kani': ['parts', 'h_stack'], 'kani-array': ['h_stack_arr']},
           '-pat': {'kani': ['parts', 'h_pat']}}


def desugar(text):
    """`let [a, name @ .., b] = E;` and `match E { [a, name @ .., b] => .. }` become calls: Kani cannot
    compile sub-array patterns."""
    pattern = r'\[([^\[\]]*@\s*\.\.[^\[\]]*)\]'

    def parts(p):
        ps = [x.strip() for x in p.split(',') if x.strip()]
        i = next((i for i, x in enumerate(ps) if re.fullmatch(r'(?:ref\s+)?\w+\s*@\s*\.\.', x)), None)
        if i is None:
            return None
        name = re.match(r'(?:ref\s+)?(\w+)', ps[i])[1]
        pre, post = ps[:i], ps[i + 1:]
        return f'([{", ".join(pre)}], {name}, [{", ".join(post)}])', f'::veb_sub::sub::<{len(pre)}, {len(post)}, _, _>'

    def let(m):
        p = parts(m[1])
        return f'let {p[0]} = {p[1]}({m[2]});' if p else m[0]

    def mat(m):
        p = parts(m[2])
        return f'match {p[1]}({m[1].strip()}) {{ {p[0]} =>' if p else m[0]

    text = re.sub(r'let\s+' + pattern + r'\s*(?::\s*&?\[[^\]]*\]\s*)?=\s*([^;]+);', let, text)
    return re.sub(r'match\s+([^{};]+?)\{\s*' + pattern + r'\s*=>', mat, text)


def crate(here, d, mods, alloc):
    os.makedirs(os.path.join(d, 'src'))
    name = os.path.basename(d).replace('-', '_')
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(f'''[package]
name = "vk_{name}"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[lib]
path = "src/lib.rs"
[dependencies]
veb-tree = {{ path = "../veb-tree" }}
alloc = {{ path = "../alloc" }}
hashbrown = {{ path = "../hashbrown" }}
typenum = "1"
generic-array = "1"
[lints.rust]
unexpected_cfgs = {{ level = "allow" }}
''')
    shutil.copy(os.path.join(here, 'kani', 'Cargo.lock.model'), os.path.join(d, 'Cargo.lock')) if os.path.exists(os.path.join(here, 'kani', 'Cargo.lock.model')) else None
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write('pub mod env {\n    pub use alloc::collections::BTreeMap;\n    pub use hashbrown::HashMap;\n}\n')
        for m in ['macros'] + COMMON + mods:
            p = os.path.join(here, 'harness', 'src', m + '.rs')
            f.write(('#[macro_use]\n' if m == 'macros' else '') + f'#[path = "{p}"]\npub mod {m};\n')


SIZES = {'': {}, '-small': {'hashbrown': 3, 'alloc': 4}, '-pat': {'hashbrown': 4, 'alloc': 5}}


def generate(here, build):
    note = []
    for suffix, caps in SIZES.items():
        note = one(here, os.path.join(build, 'mc' + suffix), caps, MODULES[suffix])
    return note


def one(here, mc, caps, modules):
    shutil.rmtree(mc, ignore_errors=True)
    shutil.copytree(os.path.join(here, 'mc'), mc, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    for c, n in caps.items():
        for fn in os.listdir(os.path.join(mc, c, 'src')):
            p = os.path.join(mc, c, 'src', fn)
            a = open(p).read()
            open(p, 'w').write(re.sub(r'pub const CAP: usize = \d+;', f'pub const CAP: usize = {n};', a))
    vt = os.path.join(mc, 'veb-tree')
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(vt, 'src'))
    n = 0
    for root, _, files in os.walk(os.path.join(vt, 'src')):
        for fn in files:
            if fn.endswith('.rs'):
                p = os.path.join(root, fn)
                a = open(p).read()
                b = desugar(a)
                if a != b:
                    n += sum(x != y for x, y in zip(a.splitlines(), b.splitlines()))
                    open(p, 'w').write(b)
    with open(os.path.join(vt, 'Cargo.toml'), 'w') as f:
        f.write('''[package]
name = "veb-tree"
version = "0.2.0"
edition = "2021"
publish = false
[dependencies]
alloc = { path = "../alloc" }
hashbrown = { path = "../hashbrown" }
vec-entry = { path = "../vec-entry" }
veb-sub = { path = "../veb-sub" }
ghost = "0.1"
typenum = "1"
generic-array = "1"
polonius-the-crab = "0.5"
[lints.rust]
unexpected_cfgs = { level = "allow" }
''')
    for c, mods in modules.items():
        crate(here, os.path.join(mc, c), mods, True)
    return [f'{n} sub-array patterns rewritten into calls for encoding']
