from . import p

T = ["trader.cc"]
NOTEST = "The programs have no tests at all."

p("F07", "Log lines have 14 columns that show the tick, the account and the order",
  "A line of the exchange log has 14 comma separated columns and one line end: time, open, high, low, close, volume, base balance, quote balance, total fee, order type, side, base "
  "amount, quote amount and price. The order columns are empty without an order, and an amount or price that is not set is empty; numbers show at least three decimals. A line of the "
  "trader log is the text given; each kind goes to its own stream, and to none if there is none.",
  ["inputs"], "all ticks, accounts and orders, with and without streams",
  "Tests log a few lines; each combination of order kind and missing fields gives another layout.",
  ["logging/csv_logger.cc", "logging/csv_logger.h"], [("CsvLogger::LogExchangeState, LogTraderState", "logging/csv_logger.cc")], (), ["log files"])
p("F08", "History files of earlier versions stay readable",
  "The messages stored in history files keep the number, the meaning, the encoding and the repetition of each of their fields. No stored field has a default other than zero or is "
  "required.",
  ["programs"], "all changes to the message definitions",
  "Tests write and read files with the same version of the definitions.",
  ["base/base.proto"], [("PriceRecord, OhlcTick, SideInputRecord", "base/base.proto")], (), ["history files"], technique="comparison of the parsed message definitions with the stored layout")
p("F09", "Times are in UTC, and adding months changes the month only",
  "No part of the system uses the local or any other time zone than UTC. Adding months to a time gives the time with the same day, hour, minute and second in UTC whose month is moved "
  "by that number, normalised as a civil date.",
  ["inputs", "configurations"], "all times and numbers of months, every setting of the host's time zone",
  "Tests run in the time zone of the machine, usually UTC, where a conversion in local time passes.",
  ["util/time.cc", "util/time.h"], [("FormatTimeUTC, AddMonthsToTime, AddMonthsToTimestampSec", "util/time.cc")], (), ["AddMonthsToTimestampSec", "printed times"])
p("F10", "Time texts are accepted in the documented forms only, as UTC",
  "A text is accepted as a time if it is a date (YYYY-MM-DD) or a date with hours, minutes and whole seconds, optionally with an offset (the forms listed in util/time.h); without one it means UTC. Every time the system prints "
  "is accepted again as that time. Any other text is an error.",
  ["inputs"], "all texts",
  "Tests try a handful of texts.",
  ["util/time.cc", "util/time.h"], [("ParseTime, FormatTimeUTC", "util/time.cc")], (), ["ParseTime"])
p("F11", "The trader program evaluates what its flags say",
  "The evaluation gets the balances, liquidity and volume ratio of the flags with the documented units and fees, the period of the time flags, the ticks of the history file within it, "
  "and a side input of the side file's records within it if that flag is given. It is of the trader named by the flag, or of the batch of that name, which is evaluated fast. The log "
  "files given by flags are written anew, each by its own kind of line, and refused when several periods are evaluated.",
  ["inputs", "configurations"], "all combinations of flags",
  NOTEST + " Flags and fields have the same types, so a mix-up compiles.", T, [("main, GetAccountConfig, ReadHistory, OpenLogFile", "trader.cc")],
  (), ["what EvaluateTrader and EvaluateBatchOfTraders are given"])
p("F12", "The trader program prints the best results first, each on its line",
  "For a batch, the names and scores of the 20 results with the highest scores (all, if fewer) are printed, highest first. For a single trader, every period is printed in order with its "
  "start, end, gains of the trader and the base currency in per cent, their ratio, and both volatilities.",
  ["inputs"], "all results of evaluations",
  NOTEST, T, [("main, PrintBatchEvalResults, PrintTraderEvalResult", "trader.cc")], (), ["standard output"])
p("F13", "The converter prints the gaps and the outliers it found",
  "When prices are read, the longest gaps between records, as many as asked for, are printed in order of time, each with both its ends and its length as h:mm:ss. When outliers are removed, the "
  "last ones (as many as asked for) are printed in order with five records around each, as they are in the history before the removal; exactly the outliers are marked, and records that "
  "do not follow each other are separated.",
  ["inputs", "configurations"], "all price histories and flags",
  NOTEST, ["convert.cc"], [("PrintPriceHistoryGaps, PrintOutliersWithContext, DurationToString", "convert.cc")], (), ["standard output"])
