----------------------------- MODULE MCSharing -----------------------------
EXTENDS Sharing
=============================================================================
