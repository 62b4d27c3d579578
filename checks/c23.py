import ctx_common
def main():
    return ctx_common.run("C23", "c23", 16, 300, 100, "snapshots of random contexts pulled into exactly sized heap buffers of every length class, unpacked and looked up, compared with the context model; distinct = different operation sequences and snapshot shapes")
