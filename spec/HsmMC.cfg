SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
INVARIANTS NoDuplicates NeverEmpty ParentsActive NoStepsLeft Predicts
PROPERTIES SeenRight Alternate Fifo ClearDrops OnlyEnabled InnermostFirst InternalStays Order RolledBack ParentsFirst EntryPointsEntered Restored HistoryFromActive DeepRemembersLeaves FinalNotifies FinalStays ActionsFollow FailureReported
