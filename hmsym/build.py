"""Compile /repo's current sources to LLVM IR for a configuration and load them."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("HM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"
OPT = "/usr/lib/llvm-18/bin/opt"
GCC = "/usr/bin/gcc"

MAP = {"CONFIG_ZERO_ON_FREE": "ZERO_ON_FREE", "CONFIG_WRITE_AFTER_FREE_CHECK": "WRITE_AFTER_FREE_CHECK", "CONFIG_SLOT_RANDOMIZE": "SLOT_RANDOMIZE",
       "CONFIG_SLAB_CANARY": "SLAB_CANARY", "CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "SLAB_QUARANTINE_RANDOM_LENGTH",
       "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "SLAB_QUARANTINE_QUEUE_LENGTH", "CONFIG_GUARD_SLABS_INTERVAL": "GUARD_SLABS_INTERVAL",
       "CONFIG_GUARD_SIZE_DIVISOR": "GUARD_SIZE_DIVISOR", "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "REGION_QUARANTINE_RANDOM_LENGTH",
       "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "REGION_QUARANTINE_QUEUE_LENGTH", "CONFIG_REGION_QUARANTINE_SKIP_THRESHOLD": "REGION_QUARANTINE_SKIP_THRESHOLD",
       "CONFIG_FREE_SLABS_QUARANTINE_RANDOM_LENGTH": "FREE_SLABS_QUARANTINE_RANDOM_LENGTH", "CONFIG_N_ARENA": "N_ARENA"}
SKIP = {"CONFIG_WERROR", "CONFIG_NATIVE", "CONFIG_CXX_ALLOCATOR", "CONFIG_UBSAN"}


def read_config(variant):
    d = {}
    for l in open(os.path.join(REPO, "config", variant + ".mk")):
        m = re.match(r"\s*(CONFIG_\w+)\s*:=\s*(\S+)", l)
        if m:
            d[m.group(1)] = m.group(2)
    return d


def config(variant="default", **over):
    """macro -> value, from the repository's variant file plus overrides (names without CONFIG_ prefix of the .mk files)"""
    d = read_config(variant)
    for k, v in over.items():
        k = "CONFIG_" + k
        if k not in d:
            raise Exception("unknown config " + k)
        d[k] = str(v).lower() if isinstance(v, bool) else str(v)
    r = {}
    for k, v in d.items():
        if k in SKIP:
            continue
        r[MAP.get(k, k)] = v
    return r


def defs(cfg, extra=()):
    return ["-D%s=%s" % kv for kv in sorted(cfg.items())] + list(extra)


BASE = ["-D_GNU_SOURCE", "-DH_MALLOC_PREFIX", "-I", os.path.join(REPO, "include"), "-I", REPO]
CPASS = "function(sroa,early-cse,simplifycfg,instsimplify,dce)"


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout


def sources():
    return sorted(os.path.basename(p) for p in glob.glob(os.path.join(REPO, "*.c")))


def compile_ir(src, out, cflags):
    cxx = src.endswith(".cc")
    cmd = [CLANG, "-std=c++17" if cxx else "-std=c17"] + (["-fsized-deallocation", "-x", "c++"] if cxx else []) + BASE + cflags + [
        "-O1", "-Xclang", "-disable-llvm-passes", "-fno-stack-protector", "-fcf-protection=none", "-fno-builtin-printf", "-w",
        "-emit-llvm", "-c", src, "-o", out + ".raw"]
    run(cmd)
    run([OPT, "-passes=" + CPASS, out + ".raw", "-o", out])


def build(cfg, extra=(), cxx=False, more=()):
    """returns (tempdir, [bitcode files])"""
    d = tempfile.mkdtemp(prefix="hmsym.")
    fl = defs(cfg, extra)
    srcs = [os.path.join(REPO, s) for s in sources()]
    if cxx:
        srcs.append(os.path.join(REPO, "new.cc"))
    srcs += list(more)
    outs = [os.path.join(d, os.path.basename(s) + ".bc") for s in srcs]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda so: compile_ir(so[0], so[1], fl), zip(srcs, outs)))
    return d, outs


PROBE = r'''
#include "h_malloc.c"
#define C(n, v) unsigned long long probe_##n = (unsigned long long)(v)
C(sizeof_allocator_state, sizeof(struct allocator_state));
C(off_region_allocator, offsetof(struct allocator_state, region_allocator));
C(off_regions_a, offsetof(struct allocator_state, regions_a));
C(off_regions_b, offsetof(struct allocator_state, regions_b));
C(off_slab_info, offsetof(struct allocator_state, slab_info_mapping));
C(sizeof_slab_info_mapping, sizeof(struct slab_info_mapping));
C(sizeof_size_class, sizeof(struct size_class));
C(sizeof_slab_metadata, sizeof(struct slab_metadata));
C(sizeof_region_metadata, sizeof(struct region_metadata));
C(n_size_classes, N_SIZE_CLASSES);
C(max_slab_size_class, max_slab_size_class);
C(max_region_table, MAX_REGION_TABLE_SIZE);
C(initial_region_table, INITIAL_REGION_TABLE_SIZE);
C(canary_size, canary_size);
C(arena_size, ARENA_SIZE);
C(real_class_region_size, REAL_CLASS_REGION_SIZE);
C(class_region_size, CLASS_REGION_SIZE);
C(slab_region_size, slab_region_size);
C(max_empty_slabs_total, max_empty_slabs_total);
C(mremap_threshold, MREMAP_MOVE_THRESHOLD);
C(sc_class_region_start, offsetof(struct size_class, class_region_start));
C(sc_slab_info, offsetof(struct size_class, slab_info));
C(sc_size_divisor, offsetof(struct size_class, size_divisor));
C(sc_slab_size_divisor, offsetof(struct size_class, slab_size_divisor));
C(sc_partial_slabs, offsetof(struct size_class, partial_slabs));
C(sc_empty_slabs, offsetof(struct size_class, empty_slabs));
C(sc_empty_slabs_total, offsetof(struct size_class, empty_slabs_total));
C(sc_free_slabs_head, offsetof(struct size_class, free_slabs_head));
C(sc_free_slabs_tail, offsetof(struct size_class, free_slabs_tail));
C(sc_free_slabs_quarantine, offsetof(struct size_class, free_slabs_quarantine));
C(sc_rng, offsetof(struct size_class, rng));
C(sc_metadata_allocated, offsetof(struct size_class, metadata_allocated));
C(sc_metadata_count, offsetof(struct size_class, metadata_count));
C(sc_metadata_count_unguarded, offsetof(struct size_class, metadata_count_unguarded));
#if SLAB_QUARANTINE_RANDOM_LENGTH > 0
C(sc_quarantine_random, offsetof(struct size_class, quarantine_random));
#endif
#if SLAB_QUARANTINE_QUEUE_LENGTH > 0
C(sc_quarantine_queue, offsetof(struct size_class, quarantine_queue));
C(sc_quarantine_queue_index, offsetof(struct size_class, quarantine_queue_index));
#endif
C(md_bitmap, offsetof(struct slab_metadata, bitmap));
C(md_next, offsetof(struct slab_metadata, next));
C(md_prev, offsetof(struct slab_metadata, prev));
#if SLAB_CANARY
C(md_canary, offsetof(struct slab_metadata, canary_value));
#endif
C(md_count, offsetof(struct slab_metadata, count));
#if SLAB_QUARANTINE
C(md_quarantine_bitmap, offsetof(struct slab_metadata, quarantine_bitmap));
#endif
#ifdef HAS_ARM_MTE
C(md_tags, offsetof(struct slab_metadata, arm_mte_tags));
#endif
C(rm_p, offsetof(struct region_metadata, p));
C(rm_size, offsetof(struct region_metadata, size));
C(rm_guard, offsetof(struct region_metadata, guard_size));
C(ra_regions, offsetof(struct region_allocator, regions));
C(ra_total, offsetof(struct region_allocator, total));
C(ra_free, offsetof(struct region_allocator, free));
C(ra_rng, offsetof(struct region_allocator, rng));
#if REGION_QUARANTINE_RANDOM_LENGTH
C(ra_quarantine_random, offsetof(struct region_allocator, quarantine_random));
#endif
#if REGION_QUARANTINE_QUEUE_LENGTH
C(ra_quarantine_queue, offsetof(struct region_allocator, quarantine_queue));
C(ra_quarantine_queue_index, offsetof(struct region_allocator, quarantine_queue_index));
#endif
C(rng_index, offsetof(struct random_state, index));
C(rng_reseed, offsetof(struct random_state, reseed));
C(rng_ctx, offsetof(struct random_state, ctx));
C(rng_cache, offsetof(struct random_state, cache));
C(rng_size, sizeof(struct random_state));
C(n_arena, N_ARENA);
C(sizeof_ro, sizeof(ro));
unsigned probe_size_classes[N_SIZE_CLASSES];
'''
