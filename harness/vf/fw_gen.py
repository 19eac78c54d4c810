"""
Writes the Fortran program which carries out calls of the HDF5 wrapper that are
listed in a file, for every kind and rank: fw_gen.py OUT.f90

The calls file has one number or word per item, separated by blanks or lines.
Model values 0, 1, 2, ... are encoded so that a conversion through a smaller
type does not go unnoticed.
"""
import sys

KINDS = {"i4": "integer(4)", "i8": "integer(8)", "r4": "real(4)", "r8": "real(8)", "s": "character(len=slen)"}

HEAD = """
module calls
  use hdf5_wrapper
  use hdf5
  implicit none
  integer, parameter :: maxval_ = 200000
  integer :: iu = 11, ou = 12
  integer :: h, slen, rk, nval, nread
  integer :: dims(7)
  integer :: strided
  integer :: vals(maxval_)
  character(len=600) :: name
  integer, allocatable :: o_gzip, o_start(:), o_count(:), o_init(:), o_chunk(:)
  logical, allocatable :: o_ext, o_over, o_szip
  integer, parameter :: corrupt = -999999, untouched = 7777
  ! The program's own numbers for handles, and the wrapper's
  integer, parameter :: nlabel = 1100
  integer :: real_h(nlabel) = 0
  logical :: label_open(nlabel) = .false.
contains

  ! The handle meant by a number in the calls: that of the open file, or one that is not in use
  subroutine read_handle()
    integer :: k
    read(iu,*) h
    if(h.lt.1.or.h.gt.1000) return
    if(label_open(h)) then
       h = real_h(h)
       return
    end if
    if(real_h(h).gt.0) h = real_h(h)
    k = 0
    do while(any(label_open.and.real_h.eq.h).and.k.lt.1000)
       k = k + 1
       h = k
    end do
  end subroutine

  ! A file was opened: the lowest free number is its
  subroutine opened(n)
    integer, intent(in) :: n
    integer :: k
    if(n.lt.1.or.n.gt.1000.or.any(label_open.and.real_h.eq.n)) then
       write(ou,'(i0)') 0
       return
    end if
    k = 1
    do while(label_open(k))
       k = k + 1
    end do
    label_open(k) = .true.
    real_h(k) = n
    write(ou,'(i0)') 1
  end subroutine

  subroutine closed(n)
    integer, intent(in) :: n
    where(real_h.eq.n) label_open = .false.
  end subroutine

  subroutine opt_array(a)
    integer, allocatable, intent(inout) :: a(:)
    integer :: n
    if(allocated(a)) deallocate(a)
    read(iu,*) n
    if(n.lt.0) return
    allocate(a(n))
    if(n.gt.0) read(iu,*) a
  end subroutine

  subroutine opt_logical(a)
    logical, allocatable, intent(inout) :: a
    integer :: n
    if(allocated(a)) deallocate(a)
    read(iu,*) n
    if(n.lt.0) return
    allocate(a)
    a = n.eq.1
  end subroutine

  subroutine options()
    integer :: n
    if(allocated(o_gzip)) deallocate(o_gzip)
    read(iu,*) n
    if(n.ge.0) then
       allocate(o_gzip)
       o_gzip = n
    end if
    call opt_logical(o_szip)
    call opt_logical(o_ext)
    call opt_logical(o_over)
    call opt_array(o_start)
    call opt_array(o_count)
    call opt_array(o_init)
    call opt_array(o_chunk)
  end subroutine

  subroutine shape_of()
    integer :: i
    read(iu,*) slen
    read(iu,*) strided
    dims = 1
    read(iu,*) rk
    do i = 1, rk
       read(iu,*) dims(i)
    end do
    nval = 1
    do i = 1, rk
       nval = nval*dims(i)
    end do
  end subroutine

  subroutine values()
    integer :: i
    do i = 1, nval
       read(iu,*) vals(i)
    end do
  end subroutine

  subroutine put_values()
    integer :: i
    do i = 1, nval
       write(ou,'(i0)') vals(i)
    end do
  end subroutine

  elemental integer(4) function e_i4(v)
    integer, intent(in) :: v
    e_i4 = v*3
  end function
  elemental integer function d_i4(x)
    integer(4), intent(in) :: x
    d_i4 = x/3
    if(e_i4(d_i4).ne.x) d_i4 = corrupt
  end function
  elemental integer(8) function e_i8(v)
    integer, intent(in) :: v
    e_i8 = v*8589934593_8
  end function
  elemental integer function d_i8(x)
    integer(8), intent(in) :: x
    d_i8 = int(x/8589934593_8)
    if(e_i8(d_i8).ne.x) d_i8 = corrupt
  end function
  elemental real(4) function e_r4(v)
    integer, intent(in) :: v
    e_r4 = v/3.0
  end function
  elemental integer function d_r4(x)
    real(4), intent(in) :: x
    d_r4 = corrupt
    if(abs(x).lt.1.0e6) d_r4 = nint(x*3.0)
    if(e_r4(d_r4).ne.x) d_r4 = corrupt
  end function
  elemental real(8) function e_r8(v)
    integer, intent(in) :: v
    e_r8 = v/3.0d0
  end function
  elemental integer function d_r8(x)
    real(8), intent(in) :: x
    d_r8 = corrupt
    if(abs(x).lt.1.0d6) d_r8 = nint(x*3.0d0)
    if(e_r8(d_r8).ne.x) d_r8 = corrupt
  end function
  ! Strings: the digits of the value; nothing for zero
  elemental function e_s(v, n) result(s)
    integer, intent(in) :: v, n
    character(len=n) :: s
    character(len=12) :: b
    b = ' '
    if(v.ne.0) write(b,'(i0)') v
    s = b
  end function
  elemental integer function d_s(x)
    character(len=*), intent(in) :: x
    integer :: i, c
    logical :: tail
    d_s = 0
    tail = .false.
    do i = 1, len(x)
       c = ichar(x(i:i))
       if(c.eq.0.or.c.eq.32) then
          tail = .true.
       else if(c.ge.48.and.c.le.57.and..not.tail.and.d_s.lt.1000000) then
          d_s = d_s*10 + c - 48
       else
          d_s = corrupt
          return
       end if
    end do
  end function
"""


def unit(kind, rank):
    t = KINDS[kind]
    e = (lambda v: "e_%s(%s%s)" % (kind, v, ", slen" if kind == "s" else ""))
    d = (lambda v: "d_%s(%s)" % (kind, v))
    dl = ["dims(%d)" % (i + 1) for i in range(rank)]
    mark = "'***'" if kind == "s" else e("untouched")
    out = []
    opts = "gzip=o_gzip, szip=o_szip, extensible=o_ext, overwrite=o_over, start=o_start, count=o_count, initial_size=o_init, chunk_size=o_chunk"
    if rank == 0:
        for what, call in (("w", "call hdf5_write_data(h, trim(name), a, %s)" % opts), ("r", "call hdf5_read_data(h, trim(name), a, start=o_start, count=o_count)"),
                           ("wa", "call hdf5_write_attribute(h, trim(name), a, overwrite=o_over)"), ("ra", "call hdf5_read_attribute(h, trim(name), a)")):
            out.append("  subroutine %s_%s_0()\n    %s :: a" % (what, kind, t))
            out.append("    a = %s" % (e("vals(1)") if what[0] == "w" else mark if kind != "s" else "repeat('*', slen)"))
            out.append("    " + call)
            if what[0] == "r":
                out.append("    vals(1) = %s" % d("a"))
            out.append("  end subroutine")
        return "\n".join(out)
    colon = ",".join([":"] * rank)
    for what, call in (("w", "call hdf5_write_data(h, trim(name), %%s, %s)" % opts), ("r", "call hdf5_read_data(h, trim(name), %s, start=o_start, count=o_count)"),
                       ("wa", "call hdf5_write_attribute(h, trim(name), %s, overwrite=o_over)"), ("ra", "call hdf5_read_attribute(h, trim(name), %s)")):
        out.append("  subroutine %s_%s_%d()" % (what, kind, rank))
        out.append("    %s, allocatable :: a(%s), b(%s)" % (t, colon, colon))
        if kind == "s":
            out.append("    character(len=slen), allocatable :: flat(:)\n    integer :: i")
        out.append("    allocate(a(%s))" % ",".join(dl))
        sect = "b(%s)" % ",".join("%d:%d+2*%s-1:2" % (2, 2, x) for x in dl)
        if what[0] == "w" and kind == "s":
            out.append("    allocate(flat(max(nval, 1)))")
            out.append("    do i = 1, nval\n       flat(i) = e_s(vals(i), slen)\n    end do")
            out.append("    a = reshape(flat(1:nval), (/%s/))" % ",".join(dl))
        elif what[0] == "w":
            out.append("    a = reshape(%s, (/%s/))" % (e("vals(1:nval)"), ",".join(dl)))
        else:
            out.append("    a = %s" % (mark if kind != "s" else "repeat('*', slen)"))
        out.append("    if(strided.eq.0) then")
        out.append("       " + call % "a")
        out.append("    else")
        out.append("       allocate(b(%s))" % ",".join("2*%s+2" % x for x in dl))
        out.append("       b = %s" % (mark if kind != "s" else "repeat('*', slen)"))
        out.append("       %s = a" % sect)
        out.append("       " + call % sect)
        if what[0] == "r":
            out.append("       a = %s" % sect)
        out.append("    end if")
        if what[0] == "r":
            out.append("    vals(1:nval) = reshape(%s, (/nval/))" % d("a"))
        out.append("  end subroutine")
    return "\n".join(out)


def main():
    out = [HEAD]
    for k in KINDS:
        for r in range(8):
            out.append(unit(k, r))
    for what in ("w", "r", "wa", "ra"):
        out.append("  subroutine do_%s(kind)\n    character(len=*), intent(in) :: kind" % what)
        out.append("    select case(trim(kind))")
        for k in KINDS:
            out.append("    case('%s')\n       select case(rk)" % k)
            for r in range(8):
                out.append("       case(%d)\n          call %s_%s_%d()" % (r, what, k, r))
            out.append("       end select")
        out.append("    end select\n  end subroutine")
    out.append("""end module calls

program fwdriver
  use calls
  implicit none
  character(len=600) :: op, kind, fname, file(2)
  integer :: n, i, ro, sz, nn, what
  logical :: flag
  integer(hid_t) :: id
  character(len=100) :: names(300)
  call get_command_argument(1, file(1))
  call get_command_argument(2, file(2))
  open(iu, file=trim(file(1)), status='old', action='read')
  open(ou, file=trim(file(2)), status='replace', action='write')
  do
     read(iu,'(a)') op
     if(op.eq.'stop') exit
     write(ou,'(a)') 'op'
     flush(ou)
     select case(trim(op))
     case('create')
        read(iu,'(a)') fname
        n = -5
        call hdf5_create_file(n, trim(fname))
        call opened(n)
     case('open')
        read(iu,'(a)') fname
        read(iu,*) ro
        n = -5
        if(ro.lt.0) then
           call hdf5_open_file(n, trim(fname))
        else
           call hdf5_open_file(n, trim(fname), readonly=(ro.eq.1))
        end if
        call opened(n)
     case('close')
        call read_handle()
        call hdf5_close_file(h)
        call closed(h)
     case('write')
        call read_handle()
        read(iu,'(a)') name
        read(iu,'(a)') kind
        call shape_of()
        call values()
        call options()
        call do_w(kind)
     case('read')
        call read_handle()
        read(iu,'(a)') name
        read(iu,'(a)') kind
        call shape_of()
        call opt_array(o_start)
        call opt_array(o_count)
        call do_r(kind)
        call put_values()
     case('wattr')
        call read_handle()
        read(iu,'(a)') name
        read(iu,'(a)') kind
        call shape_of()
        call values()
        call opt_logical(o_over)
        call do_wa(kind)
     case('rattr')
        call read_handle()
        read(iu,'(a)') name
        read(iu,'(a)') kind
        call shape_of()
        call do_ra(kind)
        call put_values()
     case('dims')
        call read_handle()
        read(iu,'(a)') name
        dims = -1
        call hdf5_get_dimensions(h, trim(name), n, dims)
        write(ou,'(i0)') n
        do i = 1, n
           write(ou,'(i0)') dims(i)
        end do
     case('type')
        call read_handle()
        read(iu,'(a)') name
        call hdf5_get_type(h, trim(name), kind, sz)
        write(ou,'(a)') trim(kind)
        write(ou,'(i0)') sz
     case('group')
        call read_handle()
        read(iu,'(a)') name
        call hdf5_create_group(h, trim(name))
     case('list')
        call read_handle()
        read(iu,'(a)') name
        read(iu,*) what
        n = -1
        names = '?'
        if(what.eq.0) call hdf5_list_datasets(h, trim(name), n, names)
        if(what.eq.1) call hdf5_list_groups(h, trim(name), n, names)
        if(what.eq.2) call hdf5_list_attributes(h, trim(name), n, names)
        nn = n
        if(what.eq.10) call hdf5_list_datasets(h, trim(name), n)
        if(what.eq.11) call hdf5_list_groups(h, trim(name), n)
        if(what.eq.12) call hdf5_list_attributes(h, trim(name), n)
        write(ou,'(i0)') n
        if(what.lt.10) then
           do i = 1, n
              write(ou,'(a)') trim(names(i))
           end do
        end if
     case('fileid')
        call read_handle()
        id = hdf5_get_file_id(h)
        if(id.gt.0) then
           write(ou,'(i0)') 1
        else
           write(ou,'(i0)') 0
        end if
     case('auto')
        read(iu,*) i
        call hdf5_auto_open(i.eq.1)
     case('talk')
        read(iu,*) i
        HDF_VERBOSITY = i
     case('quiet')
        read(iu,*) i
        HDF_ERROR_SUPPRESS = i
     end select
     write(ou,'(a)') 'done'
     flush(ou)
  end do
  write(ou,'(a)') 'end'
end program
""")
    with open(sys.argv[1], "w") as f:
        f.write("\n".join(out))


main()
