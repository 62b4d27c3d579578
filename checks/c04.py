import chan_common
def main():
    return chan_common.run("C04", "c04", 24, 400, 10, "random multi-threaded programs with 1-2 aggregating channels; every processed snapshot is logged and the flushed records are compared with the aggregation of the log; distinct = different configurations and operation sequences",
        ["threads are idle while a channel is flushed or cleared", "numeric metrics are bounded so that sums are exact", "a channel's process_snapshot callbacks see the same record as the aggregation service"], sched=(2, 24))
