S = "fortran/hdf5_wrapper/src/"
SH = '''( cd "$OLDPWD"
  export CC=/usr/bin/gcc FC=/usr/bin/gfortran FFLAGS="-fallow-argument-mismatch -w"
  H5=/usr/lib/x86_64-linux-gnu/hdf5/serial
  cmake -Wno-dev -Wno-deprecated -S "$PWD/fortran/hdf5_wrapper" -B "$W/b" -DCMAKE_BUILD_TYPE=Debug -DCMAKE_LIBRARY_PATH=$H5 >/dev/null &&
  cmake --build "$W/b" --target hdfwrapper >/dev/null &&
  gfortran -w -fallow-argument-mismatch -I"$W/b/include" -I/usr/include/hdf5/serial "$D/demo.f90" -o "$W/demo" -L"$W/b/lib" -lhdfwrapper -L$H5 -lhdf5_fortran -lhdf5 -Wl,-rpath,"$W/b/lib" ) || exit 2
timeout 100 "$W/demo" | tee log
grep -q "RIGHT" log
exit $?
'''
def F(body, decl=""):
    return {"demo.f90": "program demo\n  use hdf5_wrapper\n  implicit none\n" + decl + body + "end program\n"}
SEEDS = [
 dict(id="s42", aside=True, property="C27", files={S + "read_dataset.inc": [
   ("          memspace_dims(j) = eff_array_dims(i)\n", "          memspace_dims(j) = eff_read_dims(i)\n")]},
  needs="a section with a dimension of size one read into an array of lower rank which is larger than the section",
  breaks="the elements are put in the wrong places of the array", demo_sh=SH,
  extra=F('''  do i = 1, 24
     a(mod(i-1,3)+1, mod((i-1)/3,2)+1, (i-1)/6+1) = i
  end do
  call hdf5_create_file(h, "f.hdf5")
  call hdf5_write_data(h, "d", a)
  b = 0
  call hdf5_read_data(h, "d", b, start=(/1,2,1/), count=(/3,1,4/))
  call hdf5_close_file(h)
  if(all(b(1:3,1:4).eq.a(:,2,:))) write(*,*) "RIGHT"
''', "  integer :: h, i, a(3,2,4), b(5,4)\n")),
 dict(id="s43", aside=True, property="C27", files={S + "write_dataset.inc": [
   ("        maxdims(1:file_rank) = H5S_UNLIMITED_F\n", "        maxdims(1:file_rank) = file_dims(1:file_rank)\n        maxdims(file_rank) = H5S_UNLIMITED_F\n")]},
  needs="extending a dataset of more than one dimension along a dimension other than the last",
  breaks="an extensible dataset cannot be extended", demo_sh=SH,
  extra=F('''  a = 1
  call hdf5_create_file(h, "f.hdf5")
  call hdf5_write_data(h, "d", a, extensible=.true.)
  call hdf5_write_data(h, "d", a, start=(/4,1/), count=(/3,2/))
  call hdf5_get_dimensions(h, "d", r, d)
  call hdf5_close_file(h)
  if(d(1).eq.6.and.d(2).eq.2) write(*,*) "RIGHT"
''', "  integer :: h, r, d(7), a(3,2)\n")),
 dict(id="s44", property="C28", files={S + "hdf5_wrapper.F90": [
   ("    if(open_dset.and.fname_table(ifile).eq.open_file_name)then\n",
    "    if(open_dset.and.nopen.gt.1.and.fname_table(ifile).eq.open_file_name)then\n")]},
  needs="reading a dataset, closing the only open file and creating it anew",
  breaks="the file is still open after it is closed, because of the dataset that was read", demo_sh=SH,
  extra=F('''  call hdf5_create_file(h, "f.hdf5")
  call hdf5_write_data(h, "d", 5)
  call hdf5_read_data(h, "d", a)
  call hdf5_close_file(h)
  call hdf5_create_file(h, "f.hdf5")
  call hdf5_write_data(h, "d", 6)
  call hdf5_read_data(h, "d", a)
  call hdf5_close_file(h)
  if(a.eq.6) write(*,*) "RIGHT"
''', "  integer :: h, a\n")),
 dict(id="s45", property="C28", files={S + "hdf5_wrapper.F90": [
   ("    handle=i\n\n    read_only(handle)=.false.\n    if(present(readonly))then\n", "    handle=i\n\n    if(present(readonly))then\n")]},
  needs="opening a file for writing with a handle that was a read only file's",
  breaks="writing to the file is refused", demo_sh=SH,
  extra=F('''  call hdf5_create_file(h, "f.hdf5")
  call hdf5_write_data(h, "d", 5)
  call hdf5_close_file(h)
  call hdf5_open_file(h, "f.hdf5", readonly=.true.)
  call hdf5_close_file(h)
  call hdf5_open_file(h, "f.hdf5")
  call hdf5_write_data(h, "e", 6)
  call hdf5_close_file(h)
  write(*,*) "RIGHT"
''', "  integer :: h\n")),
 dict(id="s46", property="C28", files={S + "hdf5_wrapper.F90": [
   ("         'Unable to open HDF5 file in open_file()!',fname=fname)\n\n    i=1\n", "         'Unable to open HDF5 file in open_file()!',fname=fname)\n\n    i=min(nopen+1,nfilemax)\n")]},
  needs="a file table which is full but for a gap, in another place than the last",
  breaks="a file cannot be opened although there is a free handle", demo_sh=SH,
  extra=F('''  call hdf5_create_file(h(1), "f.hdf5")
  call hdf5_write_data(h(1), "d", 5)
  call hdf5_close_file(h(1))
  do i = 1, 1000
     call hdf5_open_file(h(i), "f.hdf5", readonly=.true.)
  end do
  call hdf5_close_file(h(500))
  call hdf5_open_file(h(500), "f.hdf5", readonly=.true.)
  call hdf5_read_data(h(500), "d", a)
  if(a.eq.5) write(*,*) "RIGHT"
''', "  integer :: h(1000), i, a\n")),
 dict(id="s47", property="C28", files={S + "hdf5_wrapper.F90": [
   ("    file_id(i)=hdf_file_id\n    nopen=nopen+1\n\n    handle=i\n", "    file_id(i)=hdf_file_id\n    if(need_write_access)nopen=nopen+1\n\n    handle=i\n"),
   ("    nopen=nopen-1\n", "    if(.not.read_only(ifile))nopen=nopen-1\n")]},
  needs="a read only file which is still open when the last writable one is closed",
  breaks="closing the writable file closes the other one too", demo_sh=SH,
  extra=F('''  call hdf5_create_file(h, "f.hdf5")
  call hdf5_write_data(h, "d", 5)
  call hdf5_close_file(h)
  call hdf5_open_file(h, "f.hdf5", readonly=.true.)
  call hdf5_create_file(g, "g.hdf5")
  call hdf5_close_file(g)
  call hdf5_read_data(h, "d", a)
  if(a.eq.5) write(*,*) "RIGHT"
''', "  integer :: h, g, a\n")),
 dict(id="s48", aside=True, property="C27", files={S + "write_attribute.inc": [
   ("      call h5tset_size_f(dtype_id, INT(LEN(arr),KIND=SIZE_T), hdf_err)\n", "      call h5tset_size_f(dtype_id, INT(MIN(LEN(arr),LEN_STR),KIND=SIZE_T), hdf_err)\n")]},
  needs="a string attribute longer than 256 characters",
  breaks="the string is cut off", demo_sh=SH,
  extra=F('''  s = repeat("abcdefghij", 30)
  call hdf5_create_file(h, "f.hdf5")
  call hdf5_create_group(h, "g")
  call hdf5_write_attribute(h, "g/s", s)
  call hdf5_read_attribute(h, "g/s", t)
  call hdf5_close_file(h)
  if(s.eq.t) write(*,*) "RIGHT"
''', "  integer :: h\n  character(len=300) :: s, t\n")),
 dict(id="s49", aside=True, property="C27", files={S + "write_dataset.inc": [
   ("        pad_dims(eff_select_idx(i)) = eff_array_dims(i)\n", "        pad_dims(i+file_rank-eff_array_rank) = eff_array_dims(i)\n")]},
  needs="writing a section which has size one in a dimension between others",
  breaks="the section is written from the wrong elements, or not at all", demo_sh=SH,
  extra=F('''  a = 0
  b = reshape((/1,2,3,4,5,6/), (/2,3/))
  call hdf5_create_file(h, "f.hdf5")
  call hdf5_write_data(h, "d", a)
  call hdf5_write_data(h, "d", b, start=(/1,2,1/), count=(/2,1,3/))
  call hdf5_read_data(h, "d", a)
  call hdf5_close_file(h)
  if(all(a(:,2,:).eq.b).and.all(a(:,1,:).eq.0)) write(*,*) "RIGHT"
''', "  integer :: h, a(2,2,3), b(2,3)\n")),
]
