use strict; use warnings;
our $HDIR; BEGIN { $HDIR = $0; $HDIR =~ s![^/]*$!!; require "${HDIR}pl.h.pl"; }
use Carp; use Cwd (); use Data::Dumper; use DirHandle; use English; use Fcntl ':mode'; use File::stat (); use File::Path; use File::Find; use FileHandle; use Getopt::Long; use POSIX 'ceil'; use Pod::Usage; use Sys::Hostname; use Time::HiRes ();
BEGIN { hostname(); unshift @INC, "${HDIR}bp"; $ENV{HOME} = "."; $ENV{BP_MODULES} = ""; }
use BatchParallel::common; use BatchParallel::compress; use Digest::MD5; use BatchParallel::checksum;
our ($SUB, $SIM_FN, $RUN, $RUNTIME, $FINAL); our $QUICKEXIT = 1;
my $B = 1600000000;
sub put { my ($f, $t) = @_; open(my $h, '>', $f) or die "$f: $!"; print $h $t; close $h; }
# the driver script of the working tree, as cmake would install it
sub install { SIM::faultbar(1); my $t = slurp("$ENV{DSIM_REPO}/src/batch-parallel.in"); $t =~ s/\@PERL_PATH\@/perl/g; $t =~ s/\@PERL5_MODULES_INC_UNSHIFT\@//g; $t =~ s/\@CMAKE_INSTALL_PREFIX\@/./g; $t =~ s/^__END__/exit(0);\n__END__/m or die "where does the script end"; put("bp.pl", $t); }
sub driver { my ($sub, @args) = @_;
    my $pid = spawn($sub, sub { SIM::role(1); SIM::note("driver"); open(STDOUT, '>>', "drv.log") or die; open(STDERR, '>>', "drv.log") or die; $| = 1;
        srand(pick(1000)); @ARGV = @args; my $dp = $$; do "./bp.pl"; if ($@) { print STDERR $@; $$ == $dp ? exit(255) : exit(254); } exit(0); });
    waitpid($pid, 0); my $st = $?;
    nap(0.05) while SIM::live() > 1;   # what a killed driver left behind ends first
    return $st; }

sub pack_ { my ($t, $type) = @_; return $type eq "gz" ? "GZ<$t>" : "BZ<$t>"; }
# compressing files in place: the data is never lost
sub j02_main {
    install(); mkdir "tree"; mkdir "tree/sub"; SIM::role(2);
    my $type = pick(2) ? "gz" : "bz2"; my $other = $type eq "gz" ? "bz2" : "gz"; my $check = pick(4) != 3; my $clean = pick(4) != 3; SIM::note("cfg $type " . ($check ? 1 : 0) . " " . ($clean ? 1 : 0));
    my $n = 1 + pick(4); my $runs = 1 + pick(3);
    for my $i (0 .. $n - 1) {
        my $t = "file$i-" . ("x" x (1 + pick(12))); my $form = pick(8); my $f = ($i == 2 ? "tree/sub" : "tree") . "/f$i"; my $bad = 0;
        if ($form == 7 && $check) { $t .= "!BAD!rest"; $bad = 1; } elsif ($form == 6) { $t = ""; } elsif ($form == 5) { $t .= "#66000#"; }
        my $raw = $t; if ($form == 3 || $form == 4) { $raw = pack_($raw, $other); $f .= ".$other"; if ($form == 4 && pick(2)) { $raw = pack_($raw, $other); $f .= ".$other"; } elsif ($form == 4 && $check) { chop $raw; $bad = 1; } } # form 4: damaged archive or archive of an archive
        (my $full = $raw) =~ s/#(\d+)#/"y" x $1/e; put($f, $full); SIM::note("orig $i $bad $f $raw"); }
    SIM::faultbar(0);
    for $RUN (1 .. $runs + 2) {
        if ($RUN > $runs) { SIM::faultbar(1); $FINAL = 1; }
        SIM::note("run $RUN " . ($RUN - $runs));
        my $st = driver(1 + $RUN, "-j", 1 + pick(3), pick(2) ? "--noshuffle" : (), "compress", $type, $check ? () : "nocheck", $clean ? () : "noclean", "--", "tree");
        SIM::note("end $st");
    }
}
# checksum files: X.checksum, where it exists, is complete and right
sub j02_sum_main {
    install(); mkdir "tree"; SIM::role(2); my $n = 1 + pick(4); my $runs = 1 + pick(3); my $un = pick(2); my $base = pick(2);
    for my $i (0 .. $n - 1) { my $t = "file$i-" . ("x" x pick(12)); my $f = "tree/f$i"; my $raw = $t; my $z = pick(3) == 2; if ($z) { $raw = pack_($t, "gz"); $f .= ".gz"; }
        put($f, $raw); my $name = "\@/$f"; $name =~ s!^.*/!! if $base; my $want = "md5 " . Digest::MD5::md5_hex($raw) . " $name\n"; if ($un && $z) { my $u = $name; $u =~ s/\.gz$// if $base; $want .= "md5 " . Digest::MD5::md5_hex($t) . " " . ($base ? $u : "?") . "\n"; }
        SIM::note("sum $f " . unpack("H*", $want)); }
    SIM::faultbar(0);
    for $RUN (1 .. $runs + 1) {
        if ($RUN > $runs) { SIM::faultbar(1); $FINAL = 1; }
        SIM::note("run $RUN " . ($RUN - $runs));
        my $st = driver(1 + $RUN, "-j", 1 + pick(3), pick(2) ? "--noshuffle" : (), "checksum", "md5", $un ? "uncompressed-also" : (), $base ? "basename" : (), "--", "tree");
        SIM::note("end $st");
    }
}
sim_main();
