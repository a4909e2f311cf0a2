----------------------------- MODULE J_Container -----------------------------
EXTENDS Container, JudgeBase
V(r) == ContainerOK(r)
=============================================================================
