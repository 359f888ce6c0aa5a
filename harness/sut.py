"""Workflows of the package under test (its name ``solidspy.solids_GUI`` is
both a module and a function)."""
from solidspy.solids_GUI import solids_auto, solids_GUI  # noqa: F401
