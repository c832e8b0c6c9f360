"""What each check builds.  src: library sources (relative to /repo/src) it needs at least;
flavour: 'thr' (sim/tsanrt.c, gcc tsan instrumentation) or 'os' (sim/os.c, AddressSanitizer)."""
SPECS = {
 'C01': dict(flavour='thr', harness=['c01_mpmc.c'], src=[]),
 'C02': dict(flavour='thr', harness=['c02_spsc.c'], src=[]),
 'C03': dict(flavour='thr', harness=['c03_ringbuf.c'], src=[]),
 'C04': dict(flavour='thr', harness=['c04_syncq.c'], src=[]),
 'C05': dict(flavour='thr', harness=['c05_job.c'], src=['posix/job.c', 'posix/linux_cpu.c', 'error.c']),
 'C06': dict(flavour='thr', harness=['c06_work.c'], src=['posix/work.c', 'posix/linux_cpu.c']),
 'C07': dict(flavour='thr', harness=['c07_hashtab_mt.c'], src=['hashtable/hashtab.c', 'hashtable/hashtab_iter.c', 'posix/cmutex.c', 'memmgr.c', 'mempool.c', 'hashfunc/fasthash.c']),
 'C08': dict(flavour='thr', harness=['c08_separate.c'], extra=['proc.c', 'cstr.c'], redef_extra=['proc.c', 'cstr.c'], src=['uuid.c', 'uuid2str.c', 'ulid.c', 'gstring.c', 'gstring_var.c', 'escape.c', 'unescape.c', 'pack.c', 'strsplit.c', 'strsplit_csv.c', 'splitargs.c', 'strtrim.c', 'strunquote.c', 'strtosize.c', 'humanize.c', 'parse-ip.c', 'str2hex.c', 'c_resolve.c', 'dirname.c', 'strcopy.c', 'b64_encode.c', 'b64_decode.c', 'hexdump.c', 'freadline.c', 'hashfunc/siphash24.c', 'hashfunc/xxhash.c', 'hashfunc/fasthash.c', 'hashfunc/cityhash.c', 'hashfunc/murmur3_hash.c', 'hashfunc/hsieh_hash.c', 'hashfunc/fnvhash.c', 'hashfunc/yorrike.c', 'mempool.c', 'arena.c', 'memmgr.c', 'hashtable/hashtab.c', 'hashtable/hashtab_iter.c', 'hashtable/fast-ht.c', 'hashtable/bloom.c', 'hashtable/xorfilter.c', 'prng/romu-rand.c', 'prng/xoroshiro.c', 'prng/xorshift.c', 'arc4random.c', 'zbuf_c.c', 'zbuf_unc.c'], subj_cflags=['-femulated-tls'], libs=['-lm', '-lz'], reset_harness_max=0),
 'M01': dict(flavour='os', harness=['m01_mempool.c', 'm01_pool.cpp'], extra=['cxx.cpp'], src=['mempool.c'], reset_harness_max=0),
 'M02': dict(flavour='os', harness=['m02_arena.c'], src=['arena.c', 'memmgr.c', 'error.c']),
 'M04': dict(flavour='os', harness=['m04_fastht.c'], src=['hashtable/fast-ht.c']),
 'M03': dict(flavour='os', harness=['m03_hashtab.c'], src=['hashtable/hashtab.c', 'hashtable/hashtab_iter.c', 'memmgr.c', 'error.c']),
 'M05': dict(flavour='os', harness=['m05_bloom.c'], src=['hashtable/bloom.c', 'humanize.c', 'strcopy.c'], libs=['-lm']),
 'D01': dict(flavour='os', harness=['d01_bloom_save.c'], src=['hashtable/bloom_marshal.c', 'hashtable/bloom.c', 'humanize.c', 'strcopy.c'], libs=['-lsodium', '-lm']),
 'D02': dict(flavour='os', harness=['d02_bloom_load.c'], src=['hashtable/bloom_marshal.c', 'hashtable/bloom.c', 'humanize.c', 'strcopy.c'], libs=['-lsodium', '-lm']),
 'M06': dict(flavour='os', harness=['m06_xorfilter.c'], src=['hashtable/xorfilter.c'], libs=['-lm']),
 'D03': dict(flavour='os', harness=['d03_xor_save.c'], src=['hashtable/xorfilter_marshal.c', 'hashtable/xorfilter.c'], libs=['-lsodium', '-lm']),
 'D04': dict(flavour='os', harness=['d04_xor_load.c'], src=['hashtable/xorfilter_marshal.c', 'hashtable/xorfilter.c'], libs=['-lsodium', '-lm']),
 'D05': dict(flavour='os', harness=['d05_rotate.c'], src=['rotatefile.c']),
 'D06': dict(flavour='os', harness=['d06_mkdirhier.c'], src=['mkdirhier.c']),
 'D07': dict(flavour='os', harness=['d07_readline.c'], src=['freadline.c']),
 'D08': dict(flavour='os', harness=['d08_mmap.cpp'], extra=['cxx.cpp'], src=['posix/mmap.cpp', 'sysexception.cpp', 'posix/syserror.cpp'], reset_harness_max=0),
 'D09': dict(flavour='os', harness=['d09_fts.c'], src=['fts.c']),
 'I01': dict(flavour='os', harness=['i01_ulid.c'], src=['ulid.c']),
 'I02': dict(flavour='os', harness=['i02_uuid.c'], src=['uuid.c', 'uuid2str.c']),
 'I03': dict(flavour='thr', harness=['i03_arc4random.c'], extra=['proc.c'], redef_extra=['proc.c'], src=['arc4random.c'], subj_cflags=['-femulated-tls', '-DNDEBUG'], reset_harness_max=0),
 'I04': dict(flavour='os', harness=['i04_sysrand.cpp'], extra=['cxx.cpp'], redef_extra=['cxx.cpp'], src=['posix/sysrand.cpp', 'posix/posix_entropy.c', 'sysexception.cpp', 'posix/syserror.cpp'], src_cflags={'posix/posix_entropy.c': ['-Dgetentropy=posix_getentropy']}, reset_harness_max=0),
 'S01': dict(flavour='os', harness=['s01_readpass.c'], src=['readpass.c']),
 'S03': dict(flavour='os', harness=['s03_progbar.c'], src=['progbar.c', 'humanize.c', 'strcopy.c']),
 'S02': dict(flavour='os', harness=['s02_daemon.c'], extra=['cxx.cpp'], src=['daemon.c', 'posix/syserror.cpp', 'sysexception.cpp']),
 'S04': dict(flavour='os', harness=['s04_resolve.c'], extra=['net.c'], redef_extra=['net.c'], redef_harness=1, src=['c_resolve.c', 'strcopy.c']),
 'I05': dict(flavour='os', harness=['i05_prng.c'], src=['prng/frand.c', 'prng/romu-rand.c', 'prng/xoroshiro.c', 'prng/xorshift.c']),
 'S05': dict(flavour='os', harness=['s05_error.c'], src=['error.c', 'memmgr.c']),
 'M07': dict(flavour='os', harness=['m07_vect.c'], redef_harness=1, src=[], libs=['-lm']),
 'D11': dict(flavour='os', harness=['d11_cdb.c'], src=['cdb_read.c', 'hashfunc/fasthash.c']),
 'D12': dict(flavour='os', harness=['d12_ftw.c'], src=['ftw.c', 'fts.c']),
 'M08': dict(flavour='os', harness=['m08_lists.c'], redef_harness=1, src=[]),
 'M09': dict(flavour='os', harness=['m09_heap.cpp', 'm09_bits.c'], extra=['cxx.cpp'], redef_harness=1, src=[], reset_harness_max=0),
 'M10': dict(flavour='os', harness=['m10_gstring.c'], redef_harness=0, src=['gstring.c', 'gstring_var.c', 'escape.c', 'unescape.c']),
 'S06': dict(flavour='os', harness=['s06_hexdump.c'], redef_harness=0, src=['hexdump.c']),
 'M13': dict(flavour='os', harness=['m13_split.c'], redef_harness=0, src=['strsplit.c', 'strtrim.c']),
 'M12': dict(flavour='os', harness=['m12_stream.c'], redef_harness=0, src=['hashfunc/xxhash.c', 'hashfunc/siphash24.c']),
 'M11': dict(flavour='os', harness=['m11_pack.c'], redef_harness=0, src=['pack.c'], assumptions=['the x86-64 calling convention (whole numbers and floating point arguments passed in separate sequences)']),
 'D10': dict(flavour='os', harness=['d10_zbuf.c'], src=['zbuf_c.c', 'zbuf_unc.c'], libs=['-lz']),
}
COMMON_REAL = "the library sources/headers under /repo named in 'real_code'"
