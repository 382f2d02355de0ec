MBT = "TLA+ model checking of %s with TLC; every emitted behaviour replayed into the real code and the recorded dump validated against the specification"
MBT_NOTE = ("The declarative reading is checked exhaustively on the specification within the stated alphabet and depth; the same "
            "behaviours plus seeded random longer ones run on the real code. Trusted: TLC, the harness projection.")
CHECKS["C09"] = (MBT % "spec/SessionHistories.tla", MBT_NOTE)
CHECKS["C10"] = (MBT % "spec/ExpiryHistories.tla", MBT_NOTE)
CHECKS["C01"] = ("TLA+ trace validation (spec/DumpTrace.tla): the specification has no transition for a dump that does not return; mass generated inputs through every entry way",
  "Every run is observed for panic, hang and process death; runs that end otherwise than by returning become traces the specification rejects. Bounded by the generated inputs.")
GEN = "TLA+ model checking of %s with TLC; emitted behaviours replayed into the real code, recorded behaviours validated by TLC against %s"
GEN_NOTE = "Exhaustive on the specification and on the replayed behaviours within the bounds in the evidence file, seeded random beyond. Trusted: TLC, the harness projection."
CHECKS["C13"] = (GEN % ("spec/RenderTrees.tla", "spec/RenderTrace.tla"), GEN_NOTE)
CHECKS["C14"] = (GEN % ("spec/ArmorDocs.tla", "spec/ArmorTrace.tla (armor decoded by spec/Armor.tla)"), GEN_NOTE)
CHECKS["C15"] = (GEN % ("spec/SourceSchedules.tla", "spec/SourceTrace.tla"), GEN_NOTE)
CHECKS["C20"] = (GEN % ("spec/CursorHistories.tla", "spec/CursorTrace.tla"), GEN_NOTE)
CHECKS["C17"] = (GEN % ("spec/CliHistories.tla", "spec/CliTrace.tla"), GEN_NOTE)
CHECKS["C18"] = (GEN % ("spec/GitHubListings.tla", "spec/GitHubTrace.tla"), GEN_NOTE)
CHECKS["C19"] = (GEN % ("spec/KeyServerCases.tla", "spec/KeyServerTrace.tla"), GEN_NOTE)
CHECKS["C21"] = (GEN % ("spec/SessionRuns.tla", "spec/SessionTrace.tla") + "; dumps at the same time also run under the race detector", GEN_NOTE)
CHECKS["C24"] = (GEN % ("spec/NetRuns.tla", "spec/NetTrace.tla"), GEN_NOTE)
