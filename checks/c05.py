import chan_common
def main():
    return chan_common.run("C05", "c05", 14, 400, 8, "random multi-threaded programs under each trace buffer policy, with records numbered per thread; flushed records are compared one by one with the log of processed snapshots; distinct = different policies, buffer sizes and operation sequences",
        ["threads are idle while a channel is flushed or cleared, and serialized by the driver under the flush policy"], sched=(2, 14))
