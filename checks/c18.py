import chan_common
def main():
    return chan_common.run("C18", "c18", 14, 300, 12, "random multi-threaded annotation programs under an unfiltered channel and several channels with random trigger lists, region/branch filters and levels; every event of every thread is judged by an independent filter evaluator, and each filtered snapshot is compared with the unfiltered one of the same event; distinct = (channel, thread) pairs in which a filter selected some but not all events",
        ["branch selection of events on unaligned or by-value attributes by non-nested enclosing regions is left open"], src="chan2.cpp", sched=(3, 9))
