# Injected with -DCMAKE_PROJECT_SMASH_INCLUDE: configures SMASH's own CMake files with the Pythia stub
# of /verif/stub in place of Pythia, and adds the simulator that links all of SMASH.
macro(find_package _vp_name)
    if("${_vp_name}" STREQUAL "Pythia")
        set(Pythia_FOUND TRUE)
        set(Pythia_INCLUDE_DIRS "${VERIF_DIR}/stub")
        set(Pythia_LIBRARIES "")
        set(Pythia_xmldoc_PATH "/nonexistent")
    else()
        _find_package(${_vp_name} ${ARGN})
    endif()
endmacro()
# The simulator: every object of SMASH, SMASH's own main() under another name, and the harness.
function(verif_add_sim)
    set(_src ${PROJECT_SOURCE_DIR}/src)
    get_directory_property(_libs DIRECTORY ${_src} DEFINITION SMASH_LIBRARIES)
    get_directory_property(_inc DIRECTORY ${_src} INCLUDE_DIRECTORIES)
    get_directory_property(_def DIRECTORY ${_src} COMPILE_DEFINITIONS)
    add_library(smash_main_renamed OBJECT ${_src}/smash.cc)
    file(GLOB _sim CONFIGURE_DEPENDS ${VERIF_DIR}/sim/*.cc)
    add_executable(simsmash ${_sim} $<TARGET_OBJECTS:objlib> $<TARGET_OBJECTS:smash_main_renamed>)
    foreach(_t smash_main_renamed simsmash)
        target_include_directories(${_t} SYSTEM PRIVATE ${_inc})
        target_compile_definitions(${_t} PRIVATE ${_def})
    endforeach()
    target_compile_definitions(smash_main_renamed PRIVATE main=smash_main)
    target_link_libraries(simsmash ${_libs} dl pthread)
    add_dependencies(objlib generate_particles.txt.h generate_decaymodes.txt.h)
    add_dependencies(simsmash generate_particles.txt.h generate_decaymodes.txt.h)
endfunction()
cmake_language(DEFER CALL verif_add_sim)
