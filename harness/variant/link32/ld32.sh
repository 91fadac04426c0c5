#!/bin/bash
# Linker for i686 executables without the 32-bit development files: binutils ld, the 32-bit runtime libraries and
# a start routine of our own. LD32_START names the assembled start.s.
args=()
for a in "$@"; do
  case "$a" in
    -m32|-pie|-static-pie|-no-pie|-nodefaultlibs|-nostartfiles) ;;
    -Wl,*) IFS=, read -ra p <<< "${a#-Wl,}"; for x in "${p[@]}"; do [ "$x" = -pie ] || args+=("$x"); done;;
    -lgcc_s|-lgcc|-lc|-lm|-ldl|-lrt|-lpthread|-lutil) ;;
    -fuse-ld=*|-B*) ;;
    *) args+=("$a");;
  esac
done
exec ld -m elf_i386 -dynamic-linker /lib/ld-linux.so.2 "$LD32_START" "${args[@]}" \
  /usr/lib32/libc.so.6 /usr/lib32/libgcc_s.so.1 /lib/ld-linux.so.2
