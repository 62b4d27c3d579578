import chan_common
def main():
    return chan_common.run("C29", "c29", 16, 400, 12, "random and boundary values of every type, created in every available way: all pairs are compared with an order written independently of the library, all are packed, printed and read back, every numeric accessor is judged with 128-bit arithmetic, numeric texts inside and outside each range are read, and equal values must share a context node; distinct = batches of values",
        ["NaN has no place in the order of doubles; its comparison is left open", "to_string prints doubles with six decimals by design: exactness of doubles is required of the .cali text form", "-0.0 and 0.0 compare as neither less nor greater but are different values"], src="variant.cpp")
