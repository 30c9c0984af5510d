import os
if "VERIF_SOCK" in os.environ:
    import world  # installs the clock
