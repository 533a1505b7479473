"""Unsafe code (C30), section typestate (C04)."""
import glob, tempfile, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import base
from base import *

# ---- C30 --------------------------------------------------------------------------------------
# macros of the compiler, the standard library and the byte-cast crate whose expansion may contain unsafe constructs
EXTERNAL = ('std::', 'core::', 'alloc::', 'bytemuck::', 'bytemuck_derive::', 'bitflags::', 'log::', 'futures_lite::')


def strip_rust(src):
    """source with comments, strings and character literals blanked out (line structure kept)"""
    out = []
    i, n = 0, len(src)

    def blank(a, b):
        out.append(''.join(ch if ch == '\n' else ' ' for ch in src[a:b]))
    while i < n:
        ch = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d, j = d + 1, j + 2
                elif src.startswith('*/', j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif ch == '"' or re.match(r'(?:b|c|br|cr|r)#*"', src[i:i + 12]) and not (i and (src[i - 1].isalnum() or src[i - 1] == '_')):
            m = re.match(r'([bc]?)(r?)(#*)"', src[i:])
            j = i + m.end()
            if m.group(2):
                e = src.find('"' + m.group(3), j)
                j = n if e < 0 else e + 1 + len(m.group(3))
            else:
                while j < n and src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
            blank(i, j)
            i = j
        elif ch == "'":
            m = re.match(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'\n])'", src[i:])
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                out.append(ch)
                i += 1
        else:
            out.append(ch)
            i += 1
    return ''.join(out)


def drop_tests(s):
    """blank out items under #[cfg(test)]"""
    for m in list(re.finditer(r'#\s*\[\s*cfg\s*\(\s*test\s*\)\s*\]', s)):
        i = m.end()
        d = 0
        while i < len(s):
            if s[i] == '{':
                d += 1
            elif s[i] == '}':
                d -= 1
                if d == 0:
                    break
            elif s[i] == ';' and d == 0:
                break
            i += 1
        s = s[:m.start()] + re.sub(r'[^\n]', ' ', s[m.start():i + 1]) + s[i + 1:]
    return s


def c30(c):
    """Two queries. The type-checked program: every unsafe block, function, impl, trait, extern block, mutable static and exported symbol of
    both crates, with the macro it comes from; only expansions of macros of the standard library and of the byte-cast derives are
    allowed. The token stream of every source file (comments, literals and test modules removed): the keyword unsafe does not occur, so code compiled only in
    other configurations is covered too."""
    for crate in ('uwuhi', 'uwuhi_async'):
        p = c.prog(crate)
        c.stats['functions'] |= {(crate, b['id']) for b in p.d['bodies'] if b.get('local')}
        for u in p.d['unsafe']:
            ext = u['expn'].startswith('Macro(') and u['mac'].startswith(EXTERNAL)
            c.ob(ext, 'no unsafe construct of its own', '%s %s (%s)' % (u['kind'], u['what'], u['span']),
                 'generated by %s' % u['mac'] if u['mac'] else 'written in the source')
        c.ob(True, 'crate enumerated', crate, '%d unsafe constructs seen' % len(p.d['unsafe']))
    n = 0
    for pat in ('src/**/*.rs', 'uwuhi-async/src/**/*.rs'):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            n += 1
            s = drop_tests(strip_rust(open(f, encoding='utf-8', errors='replace').read()))
            hits = [s.count('\n', 0, m.start()) + 1 for m in re.finditer(r'(?<![A-Za-z0-9_])unsafe(?![A-Za-z0-9_])', s)]
            c.ob(not hits, 'the keyword unsafe does not occur', os.path.relpath(f, REPO), 'line %s' % hits if hits else '')
    c.ob(n > 0, 'source files found', REPO, '%d' % n)


# ---- C04 --------------------------------------------------------------------------------------
PRE = '''#![allow(unused)]
use uwuhi::packet::{decoder::{self, MessageDecoder}, encoder::{self, MessageEncoder}, records::{Record, A}, section::{self, Section}, Header, QType};
use uwuhi::name::DomainName;
fn enc(buf: &mut [u8]) -> MessageEncoder<'_, section::Question> { MessageEncoder::new(buf) }
fn dec(buf: &[u8]) -> MessageDecoder<'_, section::Question> { MessageDecoder::new(buf).unwrap() }
fn rec() -> Record<'static> { Record::A(A::new([127, 0, 0, 1].into())) }
'''
SEC = ['Question', 'Answer', 'Authority', 'Additional']
ADD = ['e.question(encoder::Question::new(&n));', 'e.add_answer(encoder::ResourceRecord::new(&n, &r));', 'e.add_authority(encoder::ResourceRecord::new(&n, &r));', 'e.add_additional(encoder::ResourceRecord::new(&n, &r));']
MOVE = [None, 'let mut e = e.answers();', 'let mut e = e.authority();', 'let mut e = e.additional();']
DMOVE = [None, 'let mut d = d.answers().unwrap();', 'let mut d = d.authority().unwrap();', 'let mut d = d.additional().unwrap();']
ITEM = ['decoder::Question', 'decoder::ResourceRecord<\'_>', 'decoder::ResourceRecord<\'_>', 'decoder::ResourceRecord<\'_>']


def witnesses():
    """(name, must compile?, body)"""
    out = []
    E = 'fn w(buf: &mut [u8], n: DomainName, r: Record<\'_>) { let mut e = enc(buf); %s }'
    D = 'fn w(buf: &[u8]) { let mut d = dec(buf); %s }'
    fwd = ' '.join(MOVE[1:])
    out.append(('encoder: forward order with entries in every section', True, E % ' '.join((MOVE[i] or '') + ADD[i] + ADD[i] for i in range(4)) ))
    out.append(('encoder: finish in every section', True, ' '.join('fn w%d(buf: &mut [u8]) { let mut e = enc(buf); %s e.set_header(Header::default()); let _ = e.finish(); }' % (i, ' '.join(MOVE[1:i + 1])) for i in range(4))))
    out.append(('decoder: forward order reading every section', True, D % ' '.join((DMOVE[i] or '') + 'while let Some(x) = d.next() { let x: %s = x.unwrap(); } for x in d.iter() { x.unwrap(); }' % ITEM[i] for i in range(4))))
    out.append(('decoder: skipping forward', True, 'fn a(b: &[u8]) { let _ = dec(b).authority().unwrap().additional(); } fn b(b: &[u8]) { let _ = dec(b).additional(); } fn c(b: &[u8]) { let _ = dec(b).answers().unwrap().additional(); }'))
    for i in range(4):
        for j in range(4):
            if i != j:
                out.append(('encoder: adding a %s entry in the %s section' % (SEC[j], SEC[i]), False, E % (' '.join(MOVE[1:i + 1]) + ' ' + ADD[j])))
            if j and j <= i:
                out.append(('encoder: moving from the %s section back to %s' % (SEC[i], SEC[j]), False, E % (' '.join(MOVE[1:i + 1]) + ' ' + MOVE[j])))
                out.append(('decoder: moving from the %s section back to %s' % (SEC[i], SEC[j]), False, D % (' '.join(DMOVE[1:i + 1]) + ' ' + DMOVE[j])))
        out.append(('encoder: used after it was finished in the %s section' % SEC[i], False, E % (' '.join(MOVE[1:i + 1]) + ' let _ = e.finish(); ' + ADD[i])))
        out.append(('encoder: finished twice in the %s section' % SEC[i], False, E % (' '.join(MOVE[1:i + 1]) + ' let _ = e.finish(); let _ = e.finish();')))
        out.append(('encoder: cloned in the %s section' % SEC[i], False, E % (' '.join(MOVE[1:i + 1]) + ' let f = e.clone();')))
        if i < 3:
            nx = MOVE[i + 1].replace('let mut e', 'let mut f')
            out.append(('encoder: %s section used after it was left' % SEC[i], False, E % (' '.join(MOVE[1:i + 1]) + ' ' + nx + ' ' + ADD[i])))
            nx = DMOVE[i + 1].replace('let mut d', 'let mut f')
            out.append(('decoder: %s section used after it was left' % SEC[i], False, D % (' '.join(DMOVE[1:i + 1]) + ' ' + nx + ' d.next();')))
            out.append(('decoder: iterating the %s section after it was left' % SEC[i], False, D % (' '.join(DMOVE[1:i + 1]) + ' ' + nx + ' d.iter();')))
        out.append(('decoder: cloned in the %s section' % SEC[i], False, D % (' '.join(DMOVE[1:i + 1]) + ' let f = d.clone();')))
    for i in range(1, 4):
        out.append(('decoder: reading a question in the %s section' % SEC[i], False, D % (' '.join(DMOVE[1:i + 1]) + ' let q: decoder::Question = d.next().unwrap().unwrap();')))
    out.append(('decoder: reading a record in the Question section', False, D % 'let q: decoder::ResourceRecord = d.next().unwrap().unwrap();'))
    out.append(('decoder: left while a question iterator is alive', False, D % 'let mut it = d.iter(); let f = d.answers(); it.next();'))
    out.append(('decoder: left while a record iterator is alive', False, D % (DMOVE[1] + ' let mut it = d.iter(); let f = d.authority(); it.next();')))
    out.append(('a section of one\'s own', False, 'enum Mine {} impl Section for Mine {}'))
    for s in ('Answer', 'Authority', 'Additional'):
        out.append(('encoder: created in the %s section' % s, False, 'fn w(buf: &mut [u8]) { let e = MessageEncoder::<section::%s>::new(buf); }' % s))
        out.append(('decoder: created in the %s section' % s, False, 'fn w(buf: &[u8]) { let e = MessageDecoder::<section::%s>::new(buf); }' % s))
    return out


def c04(c):
    """Compile-fail witnesses: a program for every wrong order of sections must be rejected by the compiler when built against the current
    tree, and the programs in the right order must be accepted. In addition the signatures of all public functions that produce an
    encoder or decoder are enumerated: one that hands out a decoder or encoder of some section either takes by value one of an earlier
    section or creates it in the Question section, and there is no way to duplicate one."""
    p = c.prog()
    c.group('signatures', signatures, c, p)
    ws = witnesses()
    d = tempfile.mkdtemp(prefix='wit-', dir=BUILD)
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, 'tgt'))
        for k in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER', 'RUSTFLAGS'):
            env.pop(k, None)
        lock = ['--locked'] if os.path.exists(os.path.join(REPO, 'Cargo.lock')) else []
        r = subprocess.run(['cargo', 'check', '-p', 'uwuhi', '--lib', '--offline', '--message-format=json'] + lock, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        rmeta = None
        for l in r.stdout.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'uwuhi':
                    rmeta = [f for f in m['filenames'] if f.endswith('.rmeta')][0]
        if rmeta is None:
            raise SystemExit('the library does not build: ' + r.stderr[-1500:])

        def one(k):
            nm, good, body = ws[k]
            f = os.path.join(d, 'w%d.rs' % k)
            open(f, 'w').write(PRE + body + '\n')
            r = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=short', '-o', os.path.join(d, 'w%d.rmeta' % k), '--extern', 'uwuhi=' + rmeta,
                                '-L', 'dependency=' + os.path.dirname(rmeta), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return nm, good, r.returncode == 0, r.stdout
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(ws))))
        for nm, good, okc, out in res:
            errs = re.findall(r'error\[(E\d+)\]', out)
            if good:
                c.ob(okc, 'a program in the forward order compiles', nm, out.strip().split('\n')[0][:200] if not okc else '')
            else:
                c.ob(not okc, 'a program out of order is rejected', nm, 'compiles' if okc else ' '.join(errs))
        c.stats['call_sites'] += len(ws)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'trusted': ['rustc stable type checker']}


def signatures(c, p):
    def cod(ty):
        """(kind, section, how) for encoder/decoder types, looking through references"""
        t = p.types[ty]
        how = 'value'
        while t['k'] in ('ref', 'ptr'):
            how = 'ref'
            ty = t['e']
            t = p.types[ty]
        path = t.get('path') or ''
        for k in ('encoder::MessageEncoder', 'decoder::MessageDecoder'):
            if path == 'uwuhi::packet::' + k:
                a = [p.types[x] for x in t['args'] if isinstance(x, int)]
                s = (a[-1].get('path') or a[-1]['s']) if a else '?'
                s = s.rsplit('::', 1)[-1]
                return k, SEC.index(s) if s in SEC else s, how
        return None

    def within(ty, seen=()):
        r = cod(ty)
        if r:
            return [r]
        if ty in seen:
            return []
        t = p.types[ty]
        out = []
        if t.get('path') in ('std::option::Option', 'std::result::Result', 'std::boxed::Box'):
            for a in t['args']:
                if isinstance(a, int):
                    out += within(a, seen + (ty,))
        elif t['k'] == 'tuple':
            for a in t['f']:
                out += within(a, seen + (ty,))
        return out
    n = 0
    for b in p.d['bodies']:
        if not b.get('local') or b['body'] is None or b['id'] not in p.roots:
            continue
        outs = [x for x in within(b['locals'][0]) if x[2] == 'value']
        ins = [x for i in range(1, b['argc'] + 1) for x in within(b['locals'][i])]
        exported = b.get('pub') or b.get('trait')
        if not exported:
            continue
        for k, s, how in outs:
            n += 1
            if not ins:
                c.ob(s == 0, 'encoders and decoders start in the Question section', loc(b), 'creates one in section %s' % (SEC[s] if isinstance(s, int) else s))
                continue
            good = any(k2 == k and how2 == 'value' and isinstance(s2, int) and isinstance(s, int) and s2 < s for k2, s2, how2 in ins)
            c.ob(good, 'a section is only reached from an earlier one, which is consumed', loc(b), 'takes %s, returns %s' % (ins, (k, s)))
    c.ob(n >= 10, 'section transitions enumerated', 'uwuhi::packet', '%d functions' % n)


PROPS = {'C30': c30, 'C04': c04}
