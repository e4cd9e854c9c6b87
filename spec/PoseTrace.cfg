INIT PoseStart
NEXT PoseNext
CHECK_DEADLOCK FALSE
