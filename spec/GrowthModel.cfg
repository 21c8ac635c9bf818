SPECIFICATION Spec
CONSTANT NG = 96
INVARIANTS EdSRate OpenRate LambdaRate Bounded
CHECK_DEADLOCK FALSE
