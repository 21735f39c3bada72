"""Environment model: Linux memory system calls, getrandom, write, libc string functions, pthread mutexes."""
import hashlib
from . import expr as X
from .expr import E, MASK
from .machine import (Machine, Fatal, Segv, Hang, Terminate, CxxThrow, PathEnd, Unsupported, PAGE, UNDEF, TLS_BASE, ENOMEM, EINVAL, EINTR)

HOOKS = {}
NEG1 = MASK[64]
SEED = 1
MAP_FIXED = 0x10
ERRNO_OFF = 8


def hook(*names):
    def d(f):
        for n in names:
            HOOKS[n] = f
        return f
    return d


def u32(x):
    return x


def errno_addr(M):
    return TLS_BASE + M.tid * 0x10000 + ERRNO_OFF


def set_errno(M, v):
    M.wr32(errno_addr(M), v)


def wr32(M, a, v):
    wa = a & ~7
    p = M.pages.get(wa >> 12)
    old = M.rdbase(wa)
    from .machine import merge
    M.wrbase(wa, merge(old, v, a & 7, 4))


Machine.wr32 = wr32


def get_errno(M):
    v = M.rdbase(errno_addr(M) & ~7)
    return X.extract(v, (ERRNO_OFF & 7) * 8 + 31, (ERRNO_OFF & 7) * 8)


@hook("__errno_location")
def h_errno(M):
    return errno_addr(M)


def sysfault(M, name, *args):
    """fault injection: M.fault(M, name, args) -> errno or 0"""
    if M.sched is not None:
        M.sched.point(M)
    f = M.ghost.get("fault")
    if f is None:
        return 0
    return f(M, name, args)


def ev(M, name, *args):
    M.events.append((name,) + args)


def page_up(n):
    if isinstance(n, E):
        return X.and_(64, X.add(64, n, 4095), ~4095 & NEG1)
    return (n + 4095) & ~4095


def kviol(M, s, *a):
    M.kviol.append((s,) + a)


def cval(M, v):
    r = M.conc(v)
    return v if r is None else r


@hook("mmap", "mmap64")
def h_mmap(M, addr, length, prot, flags, fd, off):
    addr, length, prot, flags = cval(M, addr), cval(M, length), cval(M, prot), cval(M, flags)
    fixed = flags & MAP_FIXED
    e = sysfault(M, "mmap_fixed" if fixed else "mmap", addr, length)
    if isinstance(length, E):
        length = cval(M, length)
    if e:
        set_errno(M, e)
        ev(M, "mmap", addr, length, prot, flags, NEG1, e)
        return NEG1
    if isinstance(length, int) and length == 0:
        set_errno(M, EINVAL)
        ev(M, "mmap", addr, length, prot, flags, NEG1, EINVAL)
        return NEG1
    if fixed:
        if isinstance(addr, E) or isinstance(length, E):
            return mmap_fixed_sym(M, addr, length, prot, flags)
        if addr & 4095:
            set_errno(M, EINVAL)
            ev(M, "mmap", addr, length, prot, flags, NEG1, EINVAL)
            return NEG1
        n = page_up(length)
        ids = M.covered(addr, addr + n)
        if ids is None:
            kviol(M, "mmap_fixed over memory that is not mapped", addr, n)
        check_owner(M, "mmap_fixed", addr, n, ids)
        mid = ids[0] if ids else "stray"
        M.seg_replace(addr, addr + n, (prot & 3 | (2 if False else 0), 0, mid))
        M.discard(addr, addr + n)
        ev(M, "mmap", addr, length, prot, flags, addr, 0)
        return addr
    pol = M.ghost.get("mmap_policy")
    if isinstance(length, E) and M.ghost.get("mmap_len"):
        length = M.ghost["mmap_len"](M, length)
    if isinstance(length, E) and pol is None:
        # the kernel refuses lengths beyond the address space
        if M.decide(X.ult(64, 1 << 46, length)):
            set_errno(M, ENOMEM)
            ev(M, "mmap", addr, length, prot, flags, NEG1, ENOMEM)
            return NEG1
        length = cval(M, length)
        if isinstance(length, E) and M.enum_draws >= 64:
            length = M.choose(length)
    if isinstance(length, int) and length > 1 << 46:
        set_errno(M, ENOMEM)
        ev(M, "mmap", addr, length, prot, flags, NEG1, ENOMEM)
        return NEG1
    M.mapn += 1
    mid = "map%d" % M.mapn
    if pol is not None:
        base = pol(M, length)
        if base is None:
            set_errno(M, ENOMEM)
            ev(M, "mmap", addr, length, prot, flags, NEG1, ENOMEM)
            return NEG1
        if isinstance(base, int) and isinstance(length, int):
            M.seg_replace(base, base + page_up(length), (prot & 3, 0, mid))
        else:
            end = X.add(64, base, page_up(length))
            M.plog.append((base, end, prot & 3, 0, mid, X.lo_(base), X.hi_(end)))
            M.flush_prot()
    else:
        if isinstance(length, E):
            # one window per symbolic mapping
            base = M.mmap_next
            M.mmap_next = (base + min(page_up(X.hi_(length)), 1 << 46) + (1 << 30)) & ~((1 << 30) - 1)
            end = X.add(64, base, page_up(length))
            M.plog.append((base, end, prot & 3, 0, mid, X.lo_(base), X.hi_(end)))
            M.flush_prot()
        else:
            base = M.mmap_next
            n = page_up(length)
            M.mmap_next = base + n + M.ghost.get("mmap_gap", 0x10000)
            M.seg_replace(base, base + n, (prot & 3, 0, mid))
    ev(M, "mmap", addr, length, prot, flags, base, 0)
    return base


def mmap_fixed_sym(M, addr, length, prot, flags):
    end = X.add(64, addr, page_up(length))
    M.plog.append((addr, end, prot & 3, 0, "fixed", X.lo_(addr), X.hi_(end)))
    M.flush_prot()
    M.slog.append(__import__("hmsym.machine", fromlist=["Rng"]).Rng(addr, end, 0))
    ev(M, "mmap", addr, length, prot, flags, addr, 0)
    return addr


def check_owner(M, what, addr, n, ids):
    if ids:
        if len(set(ids)) > 1:
            kviol(M, what + " spans several mappings", addr, n)
        for i in ids:
            if not str(i).startswith("map") and i != "data":
                kviol(M, what + " touches foreign memory", addr, n)


@hook("munmap")
def h_munmap(M, addr, length):
    addr, length = cval(M, addr), cval(M, length)
    e = sysfault(M, "munmap", addr, length)
    if e:
        set_errno(M, e)
        ev(M, "munmap", addr, length, e)
        return MASK[32]
    if isinstance(addr, E) or isinstance(length, E):
        end = X.add(64, addr, page_up(length))
        M.plog.append((addr, end, 0, 0, None, X.lo_(addr), X.hi_(end)))
        M.flush_prot()
        ev(M, "munmap", addr, length, 0)
        return 0
    if addr & 4095 or length == 0:
        set_errno(M, EINVAL)
        ev(M, "munmap", addr, length, EINVAL)
        return MASK[32]
    n = page_up(length)
    if M.plog:
        M.plog.append((addr, addr + n, 0, 0, None, addr, addr + n))
        M.flush_prot()
    else:
        ids = M.covered(addr, addr + n)
        if ids is None:
            kviol(M, "munmap of memory that is not mapped", addr, n)
        check_owner(M, "munmap", addr, n, ids)
        M.seg_replace(addr, addr + n, None)
    M.discard(addr, addr + n)
    ev(M, "munmap", addr, length, 0)
    return 0


def protect(M, addr, length, prot, pkey, name):
    addr, length, prot = cval(M, addr), cval(M, length), cval(M, prot)
    e = sysfault(M, "mprotect", addr, length)
    if e:
        set_errno(M, e)
        ev(M, name, addr, length, prot, pkey, e)
        return MASK[32]
    if isinstance(addr, int) and addr & 4095:
        set_errno(M, EINVAL)
        ev(M, name, addr, length, prot, pkey, EINVAL)
        return MASK[32]
    if isinstance(addr, E) or isinstance(length, E) or M.plog:
        end = X.add(64, addr, page_up(length))
        M.plog.append((addr, end, prot & 3, pkey or 0, "prot", X.lo_(addr), X.hi_(end)))
        M.flush_prot()
        ev(M, name, addr, length, prot, pkey, 0)
        return 0
    n = page_up(length)
    ids = M.covered(addr, addr + n)
    if ids is None:
        kviol(M, "mprotect of memory that is not mapped", addr, n)
        set_errno(M, ENOMEM)
        ev(M, name, addr, length, prot, pkey, ENOMEM)
        return MASK[32]
    check_owner(M, "mprotect", addr, n, ids)
    M.seg_replace(addr, addr + n, lambda s: (prot & 3, (s[3] if pkey is None else pkey), s[4]))
    ev(M, name, addr, length, prot, pkey, 0)
    return 0


@hook("mprotect")
def h_mprotect(M, addr, length, prot):
    return protect(M, addr, length, prot, None, "mprotect")


@hook("pkey_mprotect")
def h_pkey_mprotect(M, addr, length, prot, pkey):
    pkey = cval(M, pkey)
    if pkey == MASK[32]:
        return protect(M, addr, length, prot, None, "pkey_mprotect")
    if isinstance(pkey, int) and pkey not in M.ghost.get("pkeys", ()) and pkey != 0:
        set_errno(M, EINVAL)
        return MASK[32]
    return protect(M, addr, length, prot, pkey, "pkey_mprotect")


@hook("pkey_alloc")
def h_pkey_alloc(M, flags, rights):
    if M.ghost.get("no_pkeys"):
        set_errno(M, 28)
        ev(M, "pkey_alloc", 0, 28)
        return MASK[32]
    M.ghost["pkeys"] = M.ghost.get("pkeys", ()) + (1,)
    ev(M, "pkey_alloc", 1)
    return 1


@hook("pkey_set")
def h_pkey_set(M, key, rights):
    key, rights = cval(M, key), cval(M, rights)
    if isinstance(rights, E):
        rights = M.choose(rights)
    p = M.pkru & ~(0x10001 << key)
    if rights & 1:      # PKEY_DISABLE_ACCESS
        p |= 1 << key
    if rights & 2:      # PKEY_DISABLE_WRITE
        p |= 0x10000 << key
    M.set_pkru(p)
    M.ghost.setdefault("pkru_w", {})[M.tid] = rights
    ev(M, "pkey_set", key, rights)
    return 0


@hook("madvise")
def h_madvise(M, addr, length, advice):
    addr, length, advice = cval(M, addr), cval(M, length), cval(M, advice)
    e = sysfault(M, "madvise", addr, length)
    if e:
        set_errno(M, e)
        ev(M, "madvise", addr, length, advice, e)
        return MASK[32]
    if isinstance(addr, E) or isinstance(length, E):
        if advice == 4:
            end = X.add(64, addr, page_up(length))
            M.slog.append(__import__("hmsym.machine", fromlist=["Rng"]).Rng(addr, end, 0))
        ev(M, "madvise", addr, length, advice, 0)
        return 0
    if addr & 4095:
        set_errno(M, EINVAL)
        ev(M, "madvise", addr, length, advice, EINVAL)
        return MASK[32]
    n = page_up(length)
    if not M.plog:
        ids = M.covered(addr, addr + n)
        if ids is None:
            kviol(M, "madvise of memory that is not mapped", addr, n)
            set_errno(M, ENOMEM)
            ev(M, "madvise", addr, length, advice, ENOMEM)
            return MASK[32]
        check_owner(M, "madvise", addr, n, ids)
    if advice == 4:
        M.discard(addr, addr + n)
    ev(M, "madvise", addr, length, advice, 0)
    return 0


@hook("mremap")
def h_mremap(M, old, osz, nsz, flags, new=0):
    old, osz, nsz, flags, new = [cval(M, x) for x in (old, osz, nsz, flags, new)]
    e = sysfault(M, "mremap", old, osz, nsz, new)
    if e:
        set_errno(M, e)
        ev(M, "mremap", old, osz, nsz, flags, new, NEG1, e)
        return NEG1
    if any(isinstance(x, E) for x in (old, osz, nsz, new)):
        raise Unsupported("symbolic mremap")
    if not flags & 2:
        raise Unsupported("mremap without MREMAP_FIXED")
    o, n = page_up(osz), page_up(nsz)
    if old & 4095 or new & 4095:
        set_errno(M, EINVAL)
        ev(M, "mremap", old, osz, nsz, flags, new, NEG1, EINVAL)
        return NEG1
    ids = M.covered(old, old + o)
    if ids is None:
        kviol(M, "mremap of memory that is not mapped", old, o)
        set_errno(M, 14)
        return NEG1
    check_owner(M, "mremap", old, o, ids)
    s = M.seg_at(old)
    if M.seg_at(old + o - 1) != s:
        kviol(M, "mremap over several areas", old, o)
        set_errno(M, 14)
        return NEG1
    nids = M.covered(new, new + n)
    if nids is None:
        kviol(M, "mremap onto memory that is not mapped", new, n)
    else:
        check_owner(M, "mremap target", new, n, nids)
    mid = nids[0] if nids else "stray"
    moved = {}
    k = min(o, n)
    for pg in range(old >> 12, (old + k) >> 12) if k >> 12 < len(M.pages) else sorted(p for p in M.pages if old >> 12 <= p < (old + k) >> 12):
        if pg in M.pages:
            moved[pg - (old >> 12) + (new >> 12)] = dict(M.pages[pg])
    if M._slogged(old, old + o) or M._slogged(new, new + n):
        pages, slog = dict(M.pages), list(M.slog)
        M.own = set()
        d = old - new
        M.slog.append(__import__("hmsym.machine", fromlist=["Rng"]).Rng(new, new + k, lambda MM, a: MM.rdword(X.add(64, a, d), slog, pages)))
    M.seg_replace(new, new + n, (s[2], s[3], mid))
    for pg in [p for p in M.pages if new >> 12 <= p < (new + n) >> 12]:
        del M.pages[pg]
        M.own.discard(pg)
    for pg, c in moved.items():
        M.pages[pg] = c
        M.own.add(pg)
    M.seg_replace(old, old + o, None)
    for pg in [p for p in M.pages if old >> 12 <= p < (old + o) >> 12]:
        del M.pages[pg]
        M.own.discard(pg)
    ev(M, "mremap", old, osz, nsz, flags, new, new, 0)
    return new


@hook("prctl")
def h_prctl(M, *a):
    f = M.ghost.get("prctl")
    e = f(M, a) if f is not None else 0
    if e:
        set_errno(M, e)
        ev(M, "prctl", e)
        return MASK[32]
    return 0


@hook("sysconf")
def h_sysconf(M, n):
    return M.ghost.get("pagesize", 4096)


@hook("getrandom")
def h_getrandom(M, buf, n, flags):
    n = cval(M, n)
    buf = cval(M, buf)
    pol = M.ghost.get("getrandom")
    if pol is not None:
        return pol(M, buf, n, flags)
    k = M.ghost.get("grn", 0)
    M.ghost["grn"] = k + 1
    b = hashlib.sha512(b"seed%d.%d" % (SEED, k)).digest()[:n]
    for i in range(n):
        M.store(buf + i, 1, b[i])
    ev(M, "getrandom", n, k, n, 0, list(b))
    return n


@hook("chacha_keystream_bytes")
def h_keystream(M, ctx, out, n):
    """stands for the keystream: concrete pseudo random bytes during set-up, fresh symbolic bytes in scenarios"""
    n = cval(M, n)
    out = cval(M, out)
    k = M.ghost.get("ksn", 0)
    M.ghost["ksn"] = k + 1
    if isinstance(out, E):
        raise Unsupported("keystream to symbolic address")
    M.ghost["ksctx"] = ctx
    mode = M.ghost.get("ksmode", 0)
    if callable(mode):
        vals = mode(M, k, n)
    elif mode:
        vals = [X.var("ks%d_%d:64" % (k, i), 64) for i in range((n + 7) // 8)]
    else:
        vals = ks_words(k, (n + 7) // 8)
    ev(M, "ks", k, n, vals)
    M.check_range(out, n, 2)
    if M.watch is not None:
        M.watch(out, n, 1)
    i = 0
    while n > 0:
        m = min(8, n)
        M.store(X.add(64, out, 8 * i), m, X.trunc(8 * m, vals[i]))
        n -= m
        i += 1
    return None


def ks_words(k, n):
    r = []
    j = 0
    while len(r) < n:
        d = hashlib.sha512(b"ks%d.%d.%d" % (SEED, k, j)).digest()
        r += [int.from_bytes(d[i:i + 8], "little") for i in range(0, 64, 8)]
        j += 1
    return r[:n]


# ---------------------------------------------------------------- libc
@hook("strlen")
def h_strlen(M, p):
    n = 0
    while True:
        c = M.load(X.add(64, p, n), 1)
        if M.cond(X.eq(8, c, 0)):
            return n
        n += 1
        if n > 4096:
            raise Hang("strlen")


@hook("write")
def h_write(M, fd, buf, n):
    n = cval(M, n)
    pol = M.ghost.get("write")
    if pol is not None:
        return pol(M, fd, buf, n)
    s = bytes(M.val(M.load(buf + i, 1)) for i in range(n))
    M.stderr.append((M.val(fd), s))
    return n


def stderr_text(M):
    return b"".join(s for f, s in M.stderr if f == 2).decode("latin1")


@hook("abort")
def h_abort(M):
    t = stderr_text(M)
    raise Fatal(t)


@hook("mallopt")
def h_mallopt(M, param, value):
    return 1


@hook("async_safe_fatal")
def h_async_safe_fatal(M, fmt, *a):
    t = M.cstr(fmt) % tuple(M.cstr(x) for x in a)
    M.stderr.append((2, (t.replace("hardened_malloc: ", "", 1) + "\n").encode("latin1")))
    raise Fatal(stderr_text(M))


@hook("fputs")
def h_fputs(M, s, f):
    ev(M, "fputs", M.cstr(s), f)
    if M.ghost.get("stdio"):
        M.ghost["stdio"](M)
    return 0


@hook("fputc", "putc", "_IO_putc")
def h_fputc(M, ch, f):
    ev(M, "fputs", chr(cval(M, ch) & 255), f)
    if M.ghost.get("stdio"):
        M.ghost["stdio"](M)
    return ch


@hook("fwrite")
def h_fwrite(M, p, n, k, f):
    t = "".join(chr(M.val(M.load(X.add(64, p, i), 1))) for i in range(cval(M, n) * cval(M, k)))
    ev(M, "fputs", t, f)
    if M.ghost.get("stdio"):
        M.ghost["stdio"](M)
    return k


@hook("memchr")
def h_memchr(M, p, ch, n):
    for i in range(cval(M, n)):
        if M.cond(X.eq(8, M.load(X.add(64, p, i), 1), X.trunc(8, ch))):
            return X.add(64, p, i)
    return 0


@hook("strcpy")
def h_strcpy(M, d, p):
    h_stpcpy(M, d, p)
    return d


@hook("stpcpy")
def h_stpcpy(M, d, p):
    n = 0
    while True:
        ch = M.load(X.add(64, p, n), 1)
        M.store(X.add(64, d, n), 1, ch)
        if M.cond(X.eq(8, ch, 0)):
            return X.add(64, d, n)
        n += 1
        if n > 4096:
            raise Hang("strcpy")


@hook("mempcpy")
def h_mempcpy(M, d, p, n):
    M.memcpy(d, p, n)
    return X.add(64, d, n)


@hook("getpagesize")
def h_getpagesize(M):
    return M.ghost.get("pagesize", PAGE)


@hook("pthread_mutex_destroy", "sched_yield", "pthread_yield")
def h_nothing(M, *a):
    return 0


@hook("writev")
def h_writev(M, fd, iov, n):
    """like write of the first non-empty part"""
    for i in range(cval(M, n)):
        p, k = M.load(iov + 16 * i, 8), cval(M, M.load(iov + 16 * i + 8, 8))
        if k:
            return h_write(M, fd, p, k)
    return 0


@hook("fprintf")
def h_fprintf(M, f, fmt, *args):
    ev(M, "fprintf", M.cstr(fmt), args, f)
    if M.ghost.get("stdio"):
        M.ghost["stdio"](M)
    return 0


@hook("memcpy", "memmove")
def h_memcpy(M, d, s, n):
    return M.memcpy(d, s, n)


@hook("memset")
def h_memset(M, d, c, n):
    return M.memset(d, c, n)


@hook("memcmp", "bcmp")
def h_memcmp(M, a, b, n):
    n = cval(M, n)
    if isinstance(n, E):
        n = M.choose(n)
    for i in range(n):
        x, y = M.load(X.add(64, a, i), 1), M.load(X.add(64, b, i), 1)
        if not M.cond(X.eq(8, x, y)):
            return 1 if M.cond(X.ult(8, y, x)) else MASK[32]
    return 0


@hook("explicit_bzero", "bzero")
def h_bzero(M, p, n):
    M.memset(p, 0, n)


# ---------------------------------------------------------------- pthread
@hook("pthread_mutex_init")
def h_mutex_init(M, m, attr):
    m = cval(M, m)
    e = M.ghost.get("mutex_init_fail")
    if e is not None and e(M, m):
        ev(M, "mutex_init_fail", m)
        return ENOMEM
    M.store(m, 8, 0)
    M.store(m + 8, 8, 0)
    M.store(m + 16, 8, 0)
    M.store(m + 24, 8, 0)
    M.store(m + 32, 8, 0)
    M.locks.pop(m, None)
    ev(M, "mutex_init", m)
    return 0


@hook("pthread_mutex_lock")
def h_mutex_lock(M, m):
    m = cval(M, m)
    if isinstance(m, E):
        m = M.choose(m)
    # the lock word lives in memory: touching it needs access
    w = M.watch
    M.watch = None
    M.load(m, 4)
    M.watch = w
    if M.sched is not None:
        M.sched.lock(M, m)
    else:
        if m in M.locks:
            raise Hang("deadlock: mutex %#x already held" % m)
    M.locks[m] = M.tid
    ev(M, "lock", m, M.tid)
    f = M.ghost.get("on_lock")
    if f is not None:
        f(M, m)
    return 0


@hook("pthread_mutex_trylock")
def h_mutex_trylock(M, m):
    m = cval(M, m)
    if m in M.locks:
        return 16
    M.locks[m] = M.tid
    ev(M, "lock", m, M.tid)
    return 0


@hook("pthread_mutex_unlock")
def h_mutex_unlock(M, m):
    m = cval(M, m)
    if isinstance(m, E):
        m = M.choose(m)
    w = M.watch
    M.watch = None
    M.load(m, 4)
    M.watch = w
    if M.locks.get(m) != M.tid:
        ev(M, "bad_unlock", m, M.tid)
        M.kviol.append(("unlock of a mutex that is not held", m))
    M.locks.pop(m, None)
    ev(M, "unlock", m, M.tid)
    if M.sched is not None:
        M.sched.unlocked(M, m)
    f = M.ghost.get("on_unlock")
    if f is not None:
        f(M, m)
    return 0


@hook("pthread_atfork")
def h_atfork(M, a, b, c):
    f = M.ghost.get("atfork_fail")
    ev(M, "pthread_atfork", a, b, c, ENOMEM if f else 0)
    if f:
        return ENOMEM
    M.atfork = (a, b, c)
    return 0


# ---------------------------------------------------------------- C++ runtime
@hook("_ZSt17__throw_bad_allocv")
def h_throw_bad_alloc(M):
    raise CxxThrow(bad_alloc(M))


def bad_alloc(M):
    return M.prog.sym.get("_ZTISt9bad_alloc", 0xbadbad0)


@hook("_ZSt15get_new_handlerv")
def h_get_new_handler(M):
    f = M.ghost.get("get_new_handler")
    return f(M) if f else 0


@hook("__cxa_begin_catch")
def h_begin_catch(M, p):
    M.ghost.setdefault("caught", []).append(M.exc)
    return p


@hook("__cxa_end_catch")
def h_end_catch(M):
    if M.ghost.get("caught"):
        M.ghost["caught"].pop()
    return None


@hook("__cxa_rethrow")
def h_rethrow(M):
    l = M.ghost.get("caught")
    if not l:
        raise Terminate("rethrow without an exception")
    raise CxxThrow(l[-1].ti)


@hook("__cxa_allocate_exception")
def h_alloc_exception(M, n):
    return 0x6000000fe000       # only its type matters


@hook("__cxa_free_exception", "_ZNSt9bad_allocC1Ev", "_ZNSt9bad_allocC2Ev", "_ZNSt9bad_allocD1Ev")
def h_exception_object(M, p):
    return None


@hook("__cxa_throw")
def h_throw(M, p, ti, dtor):
    raise CxxThrow(cval(M, ti))


@hook("_ZSt9terminatev", "__clang_call_terminate")
def h_terminate(M, *a):
    raise Terminate("std::terminate")


# ---------------------------------------------------------------- inline assembly
@hook("asm")
def h_asm(M, s, args):
    t = s.split()[0] if s.split() else ""
    if t in ("divl", "divq"):
        w = 32 if t == "divl" else 64
        v, lo, hi = [cval(M, x) for x in args[:3]]
        if any(isinstance(x, E) for x in (v, lo, hi)):
            raise Unsupported("symbolic " + t)
        n = hi << w | lo
        if v == 0 or n // v > MASK[w]:
            raise Segv(0, "division error")
        return n // v, n % v
    h = M.ghost.get("asm")
    if h is not None:
        return h(M, s, args)
    if not t or t.startswith("#"):
        return 0
    raise Unsupported("inline asm " + s)
