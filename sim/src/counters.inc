C(runs_with_fault)
C(f_open_fail)
C(f_read_eio)
C(f_read_eof)
C(f_read_short)
C(f_write_eio)
C(f_write_enospc)
C(f_write_short)
C(f_disk_full)
C(f_seek_fail)
C(f_close_fail)
C(f_close_lost)
C(f_flush_fail)
C(f_oom)
C(f_eintr)
C(f_legal_split)
C(f_crash_point)
C(f_crash_torn)
C(f_corrupt_byte)
C(f_truncate)
C(f_mid_swap)
C(f_mid_corrupt)
C(io_open)
C(io_read)
C(io_write)
C(io_seek)
C(io_close)
C(ops)
C(ops_refused)
C(ops_threw)
C(nodes_written)
C(points_written)
C(files_closed)
C(pages_moved)
C(pages_emptied)
C(queries)
C(retries_ok)
C(opens_refused)
C(opens_ok)
C(complete_after_crash)
C(task_switches)
C(yield_points)
C(bytes_written)
C(sim_io_us)
C(checks)
C(probe_hier_fault)
C(probe_deep_page)
C(probe_lazy_load_fault)
C(probe_fault_in_close)
C(probe_ok_despite_fault)
C(probe_post_close_refused)
C(probe_header_over_8k)
C(probe_record_over_255)
C(probe_full_len_string)
C(probe_no_extents)
C(probe_wkt_plain_vlr)
C(probe_shut)
C(probe_stray)
C(probe_rounds)
C(probe_over_4gb)
C(probe_leakcheck_reps)
C(probe_open_failed_leakcheck)
C(hops)
