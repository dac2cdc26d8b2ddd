def na(id, reason):
    NA.append({"property": id, "reason": reason})
PURE = "A function of its arguments alone: no schedule, time, I/O, fault or other party for a simulator to decide; "
na("N01", PURE + "the agreement of parallel with sequential evaluation is decided in C01, of values on disk with values in memory in C11 and C15.")
na("N02", PURE + "texts that cross a connection or a file are covered by C06, C08 and C17.")
na("N03", PURE + "the influence of executors on them is decided in C01, of storage in C15.")
na("N04", PURE + "dates in text files are covered by C17.")
