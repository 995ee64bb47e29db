"""Effect rules over the compiler's MIR of the whole library: every body, every call, every cast."""
import re

# callees outside the crate whose result or effect is not a function of their arguments' values
FORBIDDEN = [
    (r'^(core|std|alloc)::cell::', 'interior mutability'),
    (r'^(core|std|alloc)::sync::', 'shared state'),
    (r'^(core|std)::thread', 'threads'),
    (r'^std::(time|env|io|fs|net|process|os|path|thread|sync|backtrace)\b', 'ambient state or input/output'),
    (r'^std::collections::hash', 'randomised iteration order'),
    (r'^std::hash::random', 'randomised hashing'),
    (r'^(core|std)::(ptr|intrinsics|arch)::', 'raw memory'),
    (r'^(core|std)::mem::(transmute|zeroed|uninitialized|forget)', 'raw memory'),
    (r'MaybeUninit', 'uninitialised memory'),
    (r'get_unchecked|from_raw_parts|set_len|as_ptr|as_mut_ptr|unwrap_unchecked|unreachable_unchecked|from_utf8_unchecked', 'raw memory'),
    (r'^core::any::type_name', 'type names'),
    (r'^alloc::alloc::', 'raw memory'),
    (r'^alloc::(rc|sync)::', 'shared state'),
]
# what the expansion of vec![..] and format macros calls
ALLOWED = re.compile(r'^alloc::alloc::exchange_malloc|^alloc::boxed::box_new|^alloc::boxed::box_assume_init_into_vec_unsafe|^core::panicking|^core::fmt::rt::|^alloc::slice::|box_uninit|write_box_via_move|box_assume')
BADTYPE = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Atomic\w+|Mutex|RwLock|OnceLock|LazyLock|Rc|Arc|Weak|HashMap|HashSet|RandomState|Instant|SystemTime)\b|\*const |\*mut ')


def bodies(f):
    yield f.get('body')
    for p in f.get('promoted') or []:
        yield p


def effects(prog):
    bad, calls, casts = [], 0, 0
    rule = 'no unsafe code, no global or interior-mutable state, no ambient input, no address-dependent value'

    def add(where, what, f=None):
        bad.append(('%s: %s' % (where, what), what + (' at %s:%s' % (f['file'], f['line']) if f else '')))
    for w, l in prog.unsafe_blocks:
        add(w, 'unsafe block')
    for it in prog.items:
        if '__vprelude' in it['path']:
            continue
        if it['kind'].startswith('Static') or it['kind'] in ('ForeignMod', 'GlobalAsm', 'Union'):
            add(it['path'], 'global state (%s)' % it['kind'], it)
        if it.get('unsafe'):
            add(it['path'], 'unsafe item', it)
        for fd in it.get('fields') or []:
            t = prog.types[fd['ty']]['s'] if isinstance(fd['ty'], int) else str(fd['ty'])
            if BADTYPE.search(t):
                add(it['path'], 'field %s: %s' % (fd['name'], t), it)
    n = 0
    for f in prog.list:
        if '__vprelude' in f['path']:
            continue                     # the driver's own bodies for library combinators
        if f.get('static'):
            add(f['path'], 'global state', f)
        if f.get('unsafe'):
            add(f['path'], 'unsafe function', f)
        for b in bodies(f):
            if not b:
                continue
            n += 1
            for t in b['locals']:
                ty = prog.types[t]['s']
                m = BADTYPE.search(ty)
                if m and '*const ' not in m.group(0) and '*mut ' not in m.group(0):
                    add(f['path'], 'local of type ' + m.group(0), f)
            for blk in b['blocks']:
                t = blk['term']
                for c in consts(blk):
                    k = c.get('fn')
                    if k:
                        calls += 1
                        for p in {k['path'], k.get('res') or k['path']}:
                            if k.get('local') or ALLOWED.search(p):
                                continue
                            for rx, why in FORBIDDEN:
                                if re.search(rx, p):
                                    add(f['path'], '%s (%s)' % (p, why), f)
                                    break
                    if c.get('static') or c.get('tls'):
                        add(f['path'], 'reads a static', f)
                for st in blk['st']:
                    if st[0] == 'assign':
                        rv = st[2]
                        if rv[0] == 'tls' or rv[0] == 'threadlocal':
                            add(f['path'], 'thread-local state', f)
                        if rv[0] == 'cast':
                            casts += 1
                            if re.search(r'Expose|PtrToInt|WithExposed', str(rv[1])):
                                add(f['path'], 'cast %s' % rv[1], f)
    return {'rule': rule, 'checked': n + calls + casts, 'functions': n, 'calls': calls, 'casts': casts, 'bad': sorted(set(bad))}


def consts(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'const' and isinstance(x[1], dict):
            yield x[1]
        else:
            for y in x:
                yield from consts(y)


LINTS = {'effects': effects}
