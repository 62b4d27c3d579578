import ctx_common
def main():
    return ctx_common.run("C03", "c03", 24, 400, 100, "random annotation programs with one erroneous end injected at a random point (all kinds: not innermost, not open, empty, wrong value; nested, unaligned, by-value, process scope), followed by more operations on the erring thread; distinct = different operation sequences and error situations")
