---- MODULE JacobianContainerMC ----
EXTENDS JacobianContainer
==============================
