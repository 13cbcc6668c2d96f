from . import p

F = ["base/side_input.cc", "base/side_input.h"]

p("S01", "Side input lookup returns the latest record not after the query",
  "For any timestamp the index returned is that of the last record whose timestamp is at or before it, or -1 if there is none. A lookup that is given a previous index "
  "returns the same index as one without, whenever the previous index is valid for an earlier time.",
  ["inputs", "histories"], "all side histories, timestamps and previous indices",
  "Tests look up a handful of timestamps with one hint each; the shortcuts near the end of the history are separate paths.",
  F, [("GetSideInputIndex (both)", "base/side_input.cc")], [("timestamps of the records", "sorted, the searched sequence")], ["GetSideInputIndex"])
p("S02", "Side input signals are returned for the record asked for",
  "After construction, signal j of record i is signal j of the i-th record given, its timestamp is that record's, and reading all signals of a record appends exactly "
  "its signals in order. The counts of records and signals are those of the history given.",
  ["inputs"], "all side histories with a constant number of signals per record",
  "A stride or offset error is invisible with one record or one signal, and tests use two of each.",
  F, [("flattened storage: SideInput::SideInput, GetSideInputSignal(s)", "base/side_input.cc")], [("flattened signals", "record-major")],
  ["GetSideInputSignals", "GetSideInputSignal", "GetSideInputTimestamp", "GetNumberOfRecords", "GetNumberOfSignals"])
