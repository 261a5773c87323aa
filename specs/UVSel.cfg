CONSTANT MaxOps = 3
SPECIFICATION Spec
INVARIANTS NothingIsAll OpenClause LastClause OneMore Unordered Clearing ChannelsOnly
CHECK_DEADLOCK FALSE
