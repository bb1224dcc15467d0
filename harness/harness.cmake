# harness executables, linked against /repo's own library targets
function(vh name)
    cmake_parse_arguments(VH "" "" "DEPS;SRCS;DEFS;INCS" ${ARGN})
    if(NOT VH_SRCS)
        set(VH_SRCS "${name}.c")
    endif()
    set(srcs)
    foreach(s ${VH_SRCS})
        list(APPEND srcs "${VERIF_HARNESS_DIR}/${s}")
    endforeach()
    add_executable("${name}" EXCLUDE_FROM_ALL ${srcs})
    set_target_properties("${name}" PROPERTIES RUNTIME_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/harness")
    target_include_directories("${name}" PRIVATE "${VERIF_HARNESS_DIR}" "${proj_src_dir}" "${proj_bin_dir}" ${VH_INCS})
    target_compile_definitions("${name}" PRIVATE "FILE_BASENAME=\"${name}\"" ${VH_DEFS})
    target_link_libraries("${name}" PRIVATE ${VH_DEPS} m)
endfunction()

vh(drv_dstr DEPS dstr)
vh(h_crypto DEPS crypto)
vh(h_containers DEPS dstr)
vh(drv_imap DEPS imap)
vh(h_kvpsync DEPS kvpsync)
vh(drv_dns DEPS libdns systemd)
target_link_options(drv_dns PRIVATE -Wl,--wrap=xtime)
vh(drv_web DEPS http web)
vh(drv_http DEPS http web duv crypto)
vh(drv_acme DEPS acme http web duv crypto)
target_link_options(drv_acme PRIVATE -Wl,--wrap=duv_timer_must_start)
vh(h_errlog DEPS duv)
vh(h_streams DEPS http web duv)
vh(h_duv DEPS duv)
target_link_options(h_duv PRIVATE -Wl,--wrap=uv_write,--wrap=uv_shutdown)
vh(h_tls DEPS duvtls crypto duv)
vh(h_starttls DEPS libcitm duvtls crypto duv)
vh(h_tlsver DEPS duvtls crypto duv)
vh(h_kvpsend DEPS libkvpsend kvpsync)
vh(drv_citm DEPS libcitm fakestream)
set(FSWRAP -Wl,--wrap=rename,--wrap=remove,--wrap=unlink,--wrap=rmdir,--wrap=mkdir,--wrap=open,--wrap=fopen,--wrap=fflush,--wrap=fclose,--wrap=write,--wrap=fsync,--wrap=close)
target_link_options(drv_citm PRIVATE ${FSWRAP})
vh(drv_api DEPS api_client http web duv crypto)
target_link_options(drv_api PRIVATE ${FSWRAP})
vh(drv_sys DEPS dstr)
target_link_options(drv_sys PRIVATE ${FSWRAP})
vh(h_acmemgr DEPS libcitm)
target_link_options(h_acmemgr PRIVATE ${FSWRAP})
