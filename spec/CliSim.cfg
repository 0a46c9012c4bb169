INIT Init
NEXT Next
CONSTANTS
 InPaths <- LargeIn
 OutPaths <- LargeOut
 OutDirs <- LargeOutDirs
 InDirs <- LargeInDirs
 Contents <- LargeContents
 Start <- None
 Random = TRUE
 Steps = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
