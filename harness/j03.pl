use strict; use warnings;
our $HDIR; BEGIN { $HDIR = $0; $HDIR =~ s![^/]*$!!; require "${HDIR}pl.h.pl"; }
use Carp; use Cwd (); use Data::Dumper; use DirHandle; use English; use Fcntl ':mode'; use File::stat (); use File::Path; use File::Find; use FileHandle; use Getopt::Long; use POSIX 'ceil'; use Pod::Usage; use Sys::Hostname; use Time::HiRes ();
BEGIN { hostname(); unshift @INC, "${HDIR}bp"; $ENV{HOME} = "."; $ENV{BP_MODULES} = ""; }
use BatchParallel::common; use BatchParallel::make; use BatchParallel::tar;
our ($SUB, $SIM_FN, $RUN); our $QUICKEXIT = 1; our $OUT = "drv.log";
my $B = 1600000000;
sub put { my ($f, $t) = @_; open(my $h, '>', $f) or die "$f: $!"; print $h $t; close $h; }
# the driver script of the working tree, as cmake would install it
sub install { SIM::faultbar(1); my $t = slurp("$ENV{DSIM_REPO}/src/batch-parallel.in"); $t =~ s/\@PERL_PATH\@/perl/g; $t =~ s/\@PERL5_MODULES_INC_UNSHIFT\@//g; $t =~ s/\@CMAKE_INSTALL_PREFIX\@/./g; $t =~ s/^__END__/exit(0);\n__END__/m or die "where does the script end"; put("bp.pl", $t); }
sub driver { my ($sub, @args) = @_;
    my $pid = spawn($sub, sub { SIM::role(1); SIM::note("driver"); open(STDOUT, '>>', $OUT) or die; open(STDERR, '>>', "drv.log") or die; $| = 1;
        srand(pick(1000)); @ARGV = @args; my $dp = $$; do "./bp.pl"; if ($@) { print STDERR $@; $$ == $dp ? exit(255) : exit(254); } exit(0); });
    waitpid($pid, 0); my $st = $?;
    nap(0.05) while SIM::live() > 1;   # what a killed driver left behind ends first
    return $st; }
our %ver; sub stamp { my ($t, @f) = @_; for (@f) { utime($t, $t, $_) if -e $_; } }
# a result gets the time of the run if it was made from the current sources
sub stampnew { my ($t, @f) = @_; for my $f (@f) { my $x = slurp($f); next unless defined $x; my $ok = 1; while ($x =~ /\b[sf](\d+)\.v(\d+)/g) { $ok = 0 if $ver{$1} != $2; } stamp($t, $f) if $ok; } }

# a command sequence per file
sub j03_make_main {
    install(); mkdir "tree"; mkdir "tree/sub"; SIM::role(2); my $cwd = Cwd::abs_path(".");
    my $dirs = pick(4) == 3; my $n = 1 + pick(5); my $runs = 1 + pick(3);
    my $src = sub { my ($i) = @_; return $dirs ? "tree/s$i" : ($i % 3 == 2 ? "tree/sub" : "tree") . "/s$i.src"; };
    my $dst = sub { my ($i) = @_; my $f = $src->($i); if ($dirs) { $f .= ".out"; } else { $f =~ s/src$/out/; } return $f; };
    my $in = $dirs ? '$</data' : '$<';
    my @cmds; my $form = pick(4); my $end = pick(4);
    push @cmds, 'simcmd a:$<:$@:$<:$@ ' . join(" ", ("p" . pick(3)), ("z" . 100 * pick(20)) x pick(2)) . ' oPART >$TMP/a';
    if ($form == 0) { push @cmds, "cat $in \$TMP/a >\$\@"; }
    elsif ($form == 1) { push @cmds, "cat $in \$TMP/a | gzip >\$\@"; }
    elsif ($form == 2) { push @cmds, "cat $in \$TMP/a >\$TMP/b", 'gzip <$TMP/b >$TMP/c', 'cat $TMP/c >$@'; }
    else { push @cmds, "cat $in >\$\@", 'cat $TMP/a >>$@'; }
    push @cmds, 'cat $@ $TMP/a $@ $TMP/a >$TMP/d' if $end & 1;
    push @cmds, 'simcmd z:$<:$@:$<:$@' if $end & 2;
    my $gz = $form == 1 || $form == 2; SIM::note("cfg " . ($gz ? 1 : 0) . " " . ($end & 2 ? 1 : 0));
    my %bad; my $printcmd = pick(2);
    for $RUN (1 .. $runs + 2) {
        SIM::faultbar(1);
        for my $i (0 .. $n - 1) { my $what = $RUN == 1 ? 0 : $RUN > $runs ? $bad{$i} ? 0 : 9 : pick(4);
            if ($what == 0) { my $v = ++$ver{$i}; my $bad = $form != 1 && $RUN <= $runs && pick(8) == 7; my $t = "s$i.v$v" . ($bad ? "!BAD!" : ""); $bad{$i} = $bad; if ($dirs) { mkdir $src->($i); put($src->($i) . "/data", $t); } else { put($src->($i), $t); } stamp($B + 10 * $RUN, $src->($i)); SIM::note("src $i $v " . ($bad ? 1 : 0) . " " . $src->($i) . " " . $dst->($i)); }
            elsif ($what == 1 && pick(2)) { if (unlink $dst->($i)) { SIM::note("rmdest $i"); } } }
        my $j = 1 + pick(3); my $noexec = $RUN <= $runs && pick(6) == 5; SIM::faultbar(0) if $RUN <= $runs;
        SIM::note("run $RUN " . ($RUN - $runs) . " $j " . ($noexec ? 1 : 0));
        local $OUT = $noexec ? "n.log" : "drv.log"; unlink "n.log";
        my $st = driver(1 + $RUN, "-j", $j, pick(2) ? "--noshuffle" : (), $noexec ? "-n" : (), "make", $dirs ? ('transform=s!$!.out!', "unexpanded-dirs") : ('transform=s/\\.src$/.out/'), (map { "command=$_" } @cmds), $printcmd ? "printcmd" : (), "--", $dirs ? (map { "$cwd/" . $src->($_) } 0 .. $n - 1) : "tree");
        SIM::faultbar(1);
        if ($noexec && $st == 0) { my $t = slurp("n.log"); $t = "" unless defined $t; my %seen;
            for my $i (0 .. $n - 1) { my ($s, $d) = ("$cwd/" . $src->($i), "$cwd/" . $dst->($i)); next unless $t =~ /^\Q$s -> $d\E:\n((?:  .*\n)+)/m; my $got = $1; SIM::probe("dry-run");
                my $want = ""; for my $c (@cmds) { my $x = $c; $x =~ s/\$</$s/g; $x =~ s/\$@/$d-new/g; $x =~ s/\$TMP/\/tmp\/tmp-work-dir/g; $want .= "  $x\n"; } $want .= "  mv $d-new $d\n"; next if $got eq $want; $got =~ s/\Q$cwd\E/@/g; $want =~ s/\Q$cwd\E/@/g; $got =~ s/\n/ ;/g; $want =~ s/\n/ ;/g;
                SIM::violate("wrong-dry-run: for s$i the commands shown are '$got', they should be '$want'"); } }
        SIM::note("end $st"); stampnew($B + 10 * $RUN + 5, map { $dst->($_) } 0 .. $n - 1);
    }
}
# many files into few archives
sub j03_tar_main {
    install(); mkdir "tree"; mkdir "tree/sub"; mkdir "out"; SIM::role(2); my $cwd = Cwd::abs_path(".");
    my $n = 1 + pick(7); my $runs = 1 + pick(3); my %pad; my @f = map { ($_ % 3 == 2 ? "tree/sub" : "tree") . "/f$_" } 0 .. $n - 1; my $target = 300 + 30 * pick(20); my $strip = pick(2);
    $pad{$_} = 10 + pick(4) * 30 for 0 .. $n - 1;
    SIM::note("cfg $target " . ($strip ? 1 : 0));
    for $RUN (1 .. $runs + 2) {
        SIM::faultbar(1);
        for my $i (0 .. $n - 1) { my $what = $RUN == 1 ? 0 : $RUN > $runs ? 9 : pick(3);
            if ($what == 0) { my $v = ++$ver{$i}; my $t = "f$i.v$v"; $t .= "." x ($pad{$i} - length $t); put($f[$i], $t); stamp($B + 10 * $RUN, $f[$i]); SIM::note("src $i $v $pad{$i} $f[$i]"); } }
        my $j = 1 + pick(3); SIM::faultbar(0) if $RUN <= $runs;
        SIM::note("run $RUN " . ($RUN - $runs) . " $j 0");
        my $st = driver(1 + $RUN, "-j", $j, pick(2) ? "--noshuffle" : (), "tar", "target-size=$target", "destdir=$cwd/out", $strip ? "strip-path=4" : "path-parts=1", "--", "tree");
        SIM::faultbar(1);
        SIM::note("end $st"); opendir(my $d, "out") or die; stampnew($B + 10 * $RUN + 5, map { "out/$_" } grep { /tar$/ } readdir $d);
    }
}
sim_main();
