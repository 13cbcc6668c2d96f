from . import p

C = ["convert.cc"]
PR = ["util/proto.h"]
NOTEST = "The programs have no tests at all; only the guarantees of the library below them are sampled."

p("F01", "Readers deliver only valid, time-ordered records of the period",
  "Every record a history reader returns lies in [start, end) (a bound that is not positive is open), has a positive timestamp not before its predecessor's (after it, for side "
  "inputs), positive prices with low <= open, close <= high, and a volume that is not negative. A NaN price or volume is rejected. Every record of the period is returned or reading "
  "fails; none is dropped silently.",
  ["inputs", "configurations"], "all input files in CSV and delimited proto form, all periods",
  NOTEST + " Bad rows, NaN values and bounds equal to a timestamp are rare inputs.",
  C, [("Read*FromCsvFile, ReadHistoryFromDelimitedProtoFile and its validators", "convert.cc")], [("timestamp_sec_prev", "timestamp of the last accepted record")],
  ["history files written by convert"])
p("F02", "Each CSV column lands in its own field, or reading fails",
  "A row is accepted or skipped only if all its columns were converted, and every field of the record is the value of its own column in that row. A reader succeeds only if the file "
  "was opened and read to its end, or to the first row after the period, without an input error, and then it returns all records collected.",
  ["inputs", "fault_sequences"], "all CSV files: rows with missing or malformed columns, unreadable files, read errors part-way",
  NOTEST + " A stale value from the previous row shows only when a later row is malformed.",
  C, [("Read*HistoryFromCsvFile", "convert.cc")], (), ["history files written by convert", "exit status of convert"])
p("F03", "The programs return 0 only when every step succeeded",
  "Both programs end with exit status 0 only if every operation they executed that reports a status (parsing times, reading, writing, parsing flags) succeeded. In every other case "
  "they print a message on stderr and end with a status other than 0.",
  ["inputs", "configurations", "fault_sequences"], "all flag values and files, failures of any reading or writing step",
  NOTEST, C + ["trader.cc"], [("main, CheckOk", "convert.cc"), ("main, CheckOk", "trader.cc")], (), ["exit status", "stderr"])
p("F04", "A written history file is complete, or writing fails",
  "Writing serializes every element of the given range once and in order into one stream on the file, truncated first and compressed as asked. Success is reported only if the file "
  "was opened, every message was serialized, the compressed stream was finished and the file was closed, each without an error.",
  ["inputs", "fault_sequences"], "all ranges of messages, output errors at any point",
  "Tests write to a healthy temporary file and a string stream; a full disk or an unfinished compressed stream is never exercised.",
  PR, [("WriteDelimitedMessagesToOStream, WriteDelimitedMessagesToFile", "util/proto.h")], (), ["files written", "returned status"])
p("F05", "Reading delimited messages delivers each message once, or fails",
  "Every message of a file is parsed into an empty message and handed to the reader once and in order, until the reader asks to stop. Success is returned only then or at a clean end "
  "of the input: a truncated or corrupt message, a decompression error, an input error or an error of the reader is returned as an error. Reading into a list appends exactly the "
  "messages read.",
  ["inputs", "fault_sequences"], "all files, truncated or corrupted anywhere, all readers",
  "Tests read back what they wrote; a corrupted compressed stream or a read error needs a fault.",
  PR, [("ReadDelimitedMessagesFromIStream, ReadDelimitedMessagesFromFile", "util/proto.h")], (), ["returned status", "messages given to the reader"])
p("F06", "The converter carries each history from its input to its output flag",
  "The one input file given is read for the period of the time flags, and its history is written completely to the output file of its kind with the requested compression, unless it is "
  "empty. Prices for which OHLC output is asked are cleaned of outliers and resampled with the deviation and the sampling rate of their flags. Without exactly one input file, or with "
  "a sampling rate that is not positive, the program fails.",
  ["inputs", "configurations"], "all combinations of flags and contents of files",
  NOTEST + " Flags have the same type, so a mix-up compiles.", C,
  [("main, ConvertPriceHistoryToOhlcHistory, WriteHistoryToDelimitedProtoFile", "convert.cc")], (), ["files written by convert"])
