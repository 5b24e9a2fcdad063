include_directories(${CMAKE_SOURCE_DIR}/harness/common)
# harness(name sources... LIBS objlibs...)
function(harness name)
  cmake_parse_arguments(H "" "" "SRC;LIBS" ${ARGN})
  set(objs)
  foreach(l ${H_LIBS})
    list(APPEND objs $<TARGET_OBJECTS:${l}>)
  endforeach()
  list(TRANSFORM H_SRC PREPEND ${CMAKE_SOURCE_DIR}/harness/)
  add_executable(${name} EXCLUDE_FROM_ALL ${H_SRC} ${objs})
  target_link_libraries(${name} stubs ${EXT})
endfunction()
# harnesses under the controlled scheduler: everything is instrumented but the scheduler itself
if(FLAVOR STREQUAL "mc")
  set_source_files_properties(${CMAKE_SOURCE_DIR}/harness/common/mcrt.cpp PROPERTIES COMPILE_OPTIONS "-fno-sanitize=thread;-fno-threadsafe-statics;-O2")
  function(mt_harness name)
    cmake_parse_arguments(H "" "" "SRC;LIBS" ${ARGN})
    harness(${name} SRC ${H_SRC} common/mcrt.cpp LIBS ${H_LIBS})
    target_link_libraries(${name} -rdynamic dl)
  endfunction()
  mt_harness(mt_handle SRC mt_handle.cpp LIBS hw jl)
  mt_harness(mt_cm SRC mt_cm.cpp LIBS hw jl ci cm)
  mt_harness(mt_rm SRC mt_rm.cpp LIBS hw jl)
endif()
harness(jl_sat SRC jl_sat.cpp LIBS jl)
harness(jl_soft SRC jl_soft.cpp LIBS jl)
harness(jl_traj SRC jl_traj.cpp LIBS jl)
harness(jl_params SRC jl_params.cpp LIBS jl)
harness(rm_life SRC rm_life.cpp LIBS hw jl)
harness(rm_limits SRC rm_limits.cpp LIBS hw jl)
harness(cm_switch SRC cm_switch.cpp LIBS hw jl ci cm)
harness(cm_run SRC cm_run.cpp LIBS hw jl ci cm)
harness(cm_life SRC cm_life.cpp LIBS hw jl ci cm)
harness(ci_ctrl SRC ci_ctrl.cpp LIBS hw jl ci)
harness(hi_handle SRC hi_handle.cpp LIBS hw jl)
harness(ci_semantic SRC ci_semantic.cpp LIBS hw jl ci)
harness(ti_trans SRC ti_trans.cpp ti_simple.cpp ti_diff.cpp ti_four.cpp LIBS hw jl ti)
target_link_options(ti_trans PRIVATE -Wl,-z,muldefs)
