from . import p

F = ["base/history.cc", "base/history.h", "base/base.h"]
ALLH = "all time-ordered price histories"

p("H01", "A history subset is exactly the records of the time interval",
  "The subset for [start, end) begins at the first record at or after the start and ends before the first record at or after the end; a bound that is not positive is "
  "open. The subset never ends before it begins, and its copy holds exactly its records in order.",
  ["inputs", "histories"], "all time-ordered histories, all starts and ends including inverted ones",
  "Tests probe a few bounds; off-by-one at equal timestamps and inverted bounds are boundary cases.",
  ["base/base.h"], [("HistorySubset, HistorySubsetCopy", "base/base.h")], (), ["HistorySubset", "HistorySubsetCopy"])
p("H02", "Resampling preserves prices and volume",
  "Each record either opens a tick with open, high, low and close equal to its price and its volume, or is merged into the last tick: open kept, high and low extended, "
  "close replaced and volume added. A tick that fills a gap repeats the previous close with volume 0; closed ticks never change and no record is lost.",
  ["inputs", "histories"], ALLH + " and sampling rates",
  "Tests resample a dozen records; the guarantee is about every sequence of merges and gaps.",
  F, [("Resample", "base/history.cc")], [("list of ticks under construction", "only its last element may change")], ["Resample"])
p("H03", "Resampled ticks lie on a gapless grid",
  "A tick opened by a record lies at the sampling rate times the floor of the record's timestamp over the rate. Missing ticks in between are filled in one rate apart, so "
  "consecutive ticks are exactly one rate apart and each record belongs to the tick covering its time.",
  ["inputs", "histories"], ALLH + " and sampling rates",
  "Off-by-one gap filling shows only for particular distances between records relative to the grid.",
  F, [("gap filling in Resample", "base/history.cc")], [("list of ticks under construction", "")], ["Resample"])
p("H04", "Outlier removal partitions the history",
  "Every record is either kept, unchanged and in order, or its index is reported, never both and never neither. What is kept does not depend on whether the caller asks "
  "for the list of outliers.",
  ["inputs", "histories"], ALLH + ", deviations, with and without an output list",
  "Tests compare one short history; a lost record on one path needs a particular combination of conditions.",
  F, [("RemoveOutliers", "base/history.cc")], [("cleaned history, list of outlier indices", "")], ["RemoveOutliers"])
p("H05", "The reported gaps are the longest ones",
  "The candidates are the distances between consecutive records and, when given, from the start to the first and from the last record to the end. Whenever more than n are "
  "held the shortest is dropped, so the result holds the n longest; it is sorted by time.",
  ["inputs", "histories"], ALLH + ", bounds and values of n",
  "A wrong comparison keeps the right gaps in small examples; ties, n = 0 and bounds outside the history are rarely tested.",
  F, [("GetPriceHistoryGaps", "base/history.cc")], [("priority queue of gaps", "holds at most n")], ["GetPriceHistoryGaps"])
p("H06", "Outlier context never hides an outlier",
  "The last n outliers (all for n = 0) are marked as outliers. Listed around each are the records from its left to its right context, clipped to the history, and listing "
  "a record as context never unmarks an outlier.",
  ["inputs"], "all outlier index lists, history sizes, context sizes and n",
  "Overlapping contexts of neighbouring outliers and clipping at both ends need specific layouts.",
  F, [("GetOutlierIndicesWithContext", "base/history.cc")], [("index to outlier flag map", "")], ["GetOutlierIndicesWithContext"])
p("H07", "Invalid records never survive outlier removal",
  "A kept record has a positive price and a volume that is not negative. The first record that satisfies this is always kept.",
  ["inputs", "histories"], "all price histories and deviations",
  "Tests include one invalid record of each kind; the guarantee is about every path that keeps a record.",
  F, [("RemoveOutliers", "base/history.cc")], (), ["RemoveOutliers"])
p("H08", "Only jumps that do not persist are outliers",
  "A valid record is dropped only if its price differs from the last kept price by more than the factor (1 + deviation) * sqrt(minutes since, at least 1), up or down, and "
  "fewer than three of the next up to ten valid records stay beyond 80% of that jump. All other valid records are kept.",
  ["inputs", "histories"], "all price histories and deviations",
  "The criterion has a symmetric up and down half and a bounded lookahead; tests exercise one jump of each.",
  F, [("jump test and lookahead in RemoveOutliers", "base/history.cc")], [("last kept record", "reference of the jump test")], ["RemoveOutliers"])
p("H09", "The time order check looks at every consecutive pair",
  "The check succeeds exactly if no record is earlier than its predecessor, for histories of every length.",
  ["histories"], "all price histories",
  "Tests check three or four records; skipping the first or last pair passes them.",
  F, [("CheckPriceHistoryTimestamps", "base/history.cc")], (), ["CheckPriceHistoryTimestamps"])
