import chan_common
def main():
    return chan_common.run("C26", "c26", 24, 300, 8, "random nests of loops and regions through the C++ and C loop interfaces on several threads, with zero-trip, uninstrumented and prematurely left loops and mid-loop activation; the sequence of loop_statistics and loop_monitor snapshots of each thread is compared with the executed iterations, durations with bounds measured outside; distinct = threads with different loop structures",
        ["the time_interval trigger of loop_monitor and the heuristics of region_monitor are exercised, not predicted"], src="loops.cpp")
