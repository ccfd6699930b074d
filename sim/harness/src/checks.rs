use crate::core::Check;
use crate::{scen_block, scen_ds, scen_fs, scen_raid, scen_rec, scen_tree, scen_wb};

const STACK: &str = "everything in bfffs-core from Fs to VdevFile's request logic: fs, fs_tree, dataset, database, idml, ddml, tree, writeback, cache, pool, cluster, raid, mirror, vdev_block, vdev_file, labels";
const STUBS: &str = "tokio's executor and timers, futures-locks, the kernel's AIO and the disks (simulated block devices with a volatile cache), clock_gettime, entropy, the kernel's vnode locks (simulated clients), zstd/lz4 (store-only or simplified codecs)";

pub static CHECKS: &[Check] = &[
    Check { prop: "C01", gen: scen_fs::gen_crash, run: scen_fs::run, quick: 40000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if a crash happened or several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["crashes", "recoveries", "crash_lost_writes"] },
    Check { prop: "C02", gen: scen_fs::gen_posix, run: scen_fs::run, quick: 40000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["ops"] },
    Check { prop: "C03", gen: scen_fs::gen_readdir, run: scen_fs::run, quick: 8000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["readdir_resumed", "readdir_during_change"] },
    Check { prop: "C04", gen: scen_fs::gen_orphan, run: scen_fs::run, quick: 40000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if a crash happened or several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["unlink_held", "crashes", "leak_check"] },
    Check { prop: "C05", gen: scen_fs::gen_redundant, run: scen_fs::run_redundant, quick: 20000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if a crash happened or several clients interleaved; disks are lost, faulted, made to fail reads and attached in nearly all", real: STACK, stub: STUBS,
        assumptions: &[], need: &["admin_fault", "attach", "degraded_import", "flaky_read", "crashes", "repaired"] },
    Check { prop: "C06", gen: scen_fs::gen_rot, run: scen_fs::run_rot, quick: 20000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if some blocks rotted", real: STACK, stub: STUBS,
        assumptions: &[], need: &["rotten_blocks", "good_reads", "reported_errors"] },
    Check { prop: "C07", gen: scen_fs::gen_errors, run: scen_fs::run_errors, quick: 40000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if an I/O error stopped the machine or several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["stopped_by_error", "recoveries"] },
    Check { prop: "C08", gen: scen_fs::gen_space, run: scen_fs::run, quick: 8000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if a crash happened or several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["clean", "space_check", "crashes"] },
    Check { prop: "C09", gen: scen_ds::gen, run: scen_ds::run, quick: 40000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if a crash happened or several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["destroys", "mounts", "crashes", "recoveries", "shared"] },
    Check { prop: "C10", gen: scen_tree::gen, run: scen_tree::run, quick: 40000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if several clients interleaved", real: STACK, stub: STUBS,
        assumptions: &[], need: &["range_delete", "clean", "reopen", "accounting", "sync"] },
    Check { prop: "C11", gen: scen_raid::gen, run: scen_raid::run, quick: 20000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if its geometry fits its zones and operations ran", real: "RAID, mirror, codec, layout, labels, block and file devices", stub: STUBS,
        assumptions: &[], need: &["degraded_read", "multi_read", "reconstructed", "reopen_zone", "padded_flush", "sync", "erase_zone", "power_failure"] },
    Check { prop: "C12", gen: scen_block::gen, run: scen_block::run, quick: 20000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if operations ran", real: "vdev_block, vdev_file, labels", stub: STUBS,
        assumptions: &[], need: &["read", "sync", "label", "erase", "remove", "abandoned", "accumulated", "long_burst", "errors", "power_failure", "import"] },
    Check { prop: "C13", gen: scen_wb::gen, run: scen_wb::run, quick: 20000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if the threads interleaved", real: "writeback", stub: "threads (one at a time, switched at every atomic operation and lock), atomics (sequentially consistent), the users of the credit (simulated)",
        assumptions: &[], need: &["waited", "gave_up", "dirty", "shared", "overdrawn", "all_repaid"] },
    Check { prop: "C14", gen: scen_rec::gen, run: scen_rec::run, quick: 40000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if several clients interleaved, or if it drove the cache alone", real: "idml, ddml, cache, compression, cleaner, tree, pool, cluster, raid, mirror, block and file devices", stub: STUBS,
        assumptions: &[], need: &["hit", "together", "direct", "abandoned", "pop", "delete", "clean", "flaky", "reported_errors", "compressed", "audit", "lru_ops", "lru_evicted", "inserted_twice"] },
    Check { prop: "C15", gen: scen_fs::gen_fuse, run: scen_fs::run, quick: 20000, thorough: 2000000, level: "exploration",
        rule: "a run counts as nontrivial if a crash happened or several clients interleaved", real: "bfffsd's FUSE server, and everything in bfffs-core from Fs to VdevFile's request logic", stub: "the fuse3 library and the kernel (simulated: it caches, looks up and forgets), tokio's executor and timers, futures-locks, the kernel's AIO and the disks, clock_gettime, entropy, zstd/lz4",
        assumptions: &[], need: &["fuse_lookup", "fuse_forget", "fuse_vget", "fuse_dotdot", "fuse_unmount"] },
];
