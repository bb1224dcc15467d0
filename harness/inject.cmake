# Included at the end of /repo's project() call (CMAKE_PROJECT_<name>_INCLUDE):
# adds the harness executables to the same build, after all of /repo's targets.
cmake_language(DEFER CALL include "${VERIF_HARNESS_DIR}/harness.cmake")
