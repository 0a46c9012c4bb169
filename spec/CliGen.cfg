INIT Init
NEXT Next
CONSTANTS
 InPaths <- SmallIn
 OutPaths <- SmallOut
 OutDirs <- SmallOutDirs
 InDirs <- SmallInDirs
 Contents <- SmallContents
 Start <- SmallIn
 Random = FALSE
 Steps = 3
INVARIANT Emit
PROPERTY Agrees
PROPERTY Stable
CHECK_DEADLOCK FALSE
