import chan_common
def main():
    return chan_common.run("C15", "c15", 24, 300, 8, "random programs with create/activate/deactivate/flush/clear/delete operations on 2-5 differently configured channels; each flush must equal that of a run in which the channel is alone, plain traces must hold exactly the operations made while active; distinct = flushes with their record counts",
        ["channel creation, activation and deletion are not concurrent with annotations on other threads (documented as not thread-safe)", "times are excluded from the comparison"], src="chan2.cpp")
