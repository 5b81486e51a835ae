"""pvc: contract-based deductive verification of primpy by symbolic execution of its real source."""
