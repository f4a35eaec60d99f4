use strict; use warnings;
our $HDIR; BEGIN { $HDIR = $0; $HDIR =~ s![^/]*$!!; require "${HDIR}pl.h.pl"; }
use Carp; use Cwd (); use Data::Dumper; use DirHandle; use English; use Fcntl ':mode'; use File::stat (); use File::Path; use File::Find; use FileHandle; use Getopt::Long; use POSIX 'ceil'; use Pod::Usage; use Sys::Hostname; use Time::HiRes ();
BEGIN { hostname(); unshift @INC, "${HDIR}bp"; $ENV{HOME} = "."; $ENV{BP_MODULES} = ""; }
use BatchParallel::common; use BatchParallel::simjob; use BatchParallel::jobsfile;
our ($SUB, $SIM_FN, $RUN, $RUNTIME, $FINAL); our $QUICKEXIT = 1;
my $B = 1600000000;
sub srcfile { my ($i) = @_; return ($i % 3 == 2 ? "tree/sub" : "tree") . "/s$i.src"; }
sub put { my ($f, $t) = @_; open(my $h, '>', $f) or die "$f: $!"; print $h $t; close $h; }
# the driver script of the working tree, as cmake would install it
sub install { my $t = slurp("$ENV{DSIM_REPO}/src/batch-parallel.in"); $t =~ s/\@PERL_PATH\@/perl/g; $t =~ s/\@PERL5_MODULES_INC_UNSHIFT\@//g; $t =~ s/\@CMAKE_INSTALL_PREFIX\@/./g; $t =~ s/^__END__/exit(0);\n__END__/m or die "where does the script end"; put("bp.pl", $t); }
sub driver { my ($sub, @args) = @_;
    my $pid = spawn($sub, sub { SIM::role(1); SIM::note("driver"); open(STDOUT, '>>', "drv.log") or die; open(STDERR, '>>', "drv.log") or die; $| = 1;
        srand(pick(1000)); @ARGV = @args; my $dp = $$; do "./bp.pl"; if ($@) { print STDERR $@; $$ == $dp ? exit(255) : exit(254); } exit(0); });
    waitpid($pid, 0); my $st = $?;
    nap(0.05) while SIM::live() > 1;   # what a killed driver left behind ends first
    return $st; }
# the batch system of a cluster: runs the tasks of the submitted array job, some at a time, and starts a task again that was killed
sub cluster { my ($kind) = @_; my $l = slurp("submitted.log"); unlink "submitted.log"; return unless defined $l;
    my ($n, $g, $mod, $dir);
    if ($kind eq "lsf") { $l =~ /\[1-(\d+)\]/ or SIM::violate("bad-submission: $l"); $n = $1; $l =~ /--lsfexec=(\d+) (\S+) -- (\S+)$/ or SIM::violate("bad-submission: $l"); ($g, $mod, $dir) = ($1, $2, $3); }
    else { $l =~ /-t 1-(\d+) / or SIM::violate("bad-submission: $l"); $n = $1; $l =~ /--codineexec=(\d+) (\S+) -- (\S+)$/ or SIM::violate("bad-submission: $l"); ($g, $mod, $dir) = ($1, $2, $3); }
    SIM::note("tasks $n"); my @todo = (1 .. $n); my %run; my $w = 1 + pick(3);
    while (@todo || %run) {
        while (@todo && keys %run < $w) { my $k = splice(@todo, pick(scalar @todo), 1);
            my $pid = spawn(50 + $k % 20, sub { SIM::role(1); open(STDOUT, '>>', "drv.log") or die; open(STDERR, '>>', "drv.log") or die; $| = 1; srand(1);
                $ENV{$kind eq "lsf" ? "LSB_JOBINDEX" : "SGE_TASK_ID"} = $k; @ARGV = ("--" . ($kind eq "lsf" ? "lsfexec" : "codineexec") . "=$g", $mod, "--", $dir); do "./bp.pl"; if ($@) { print STDERR $@; exit(255); } exit(0); });
            $run{$pid} = $k; }
        my $p = waitpid(-1, 0); next unless exists $run{$p}; my $k = delete $run{$p};
        if (($? & 127) == 9) { SIM::probe("task-requeued"); nap(0.05) while SIM::live() > 1 + keys %run && pick(2); push @todo, $k; nap(6); } elsif ($?) { SIM::note("taskfail"); }
    }
    nap(0.05) while SIM::live() > 1; }
sub j01_array_main {
    install(); mkdir "tree"; mkdir "tree/sub"; SIM::role(2); my $kind = pick(2) ? "sge" : "lsf"; $ENV{$kind eq "lsf" ? "LSF_ENVDIR" : "SGE_ROOT"} = "/nowhere";
    my $n = 1 + pick(12); my $ver = 0; my $runs = 1 + pick(2);
    for $RUN (1 .. $runs + 2) {
        if ($RUN > $runs) { SIM::faultbar(1); $FINAL = 1; }
        if ($RUN <= $runs) { for my $i (0 .. $n - 1) { next if $RUN > 1 && pick(3); ++$ver; put(srcfile($i), "s$i.v$ver"); utime($B + 10 * $RUN, $B + 10 * $RUN, srcfile($i)); SIM::note("src $i $ver"); } }
        $RUNTIME = $B + 10 * $RUN + 5; my $how = pick(4);
        SIM::note("arun $RUN " . ($RUN - $runs));
        my $st = driver(1 + $RUN, "-w", 1 + pick(3), $how == 1 ? "--groupsize=" . (1 + pick(4)) : $how == 2 ? "--maxgroups=" . (1 + pick(5)) : (), pick(2) ? "--noshuffle" : (), "simjob", "--", "tree");
        cluster($kind); SIM::note("aend $st");
        nap(2);
    }
}
sub j01_main {
    install(); mkdir "tree"; mkdir "tree/sub"; SIM::role(2);
    my $n = 1 + pick(6); my $ver = 0; my $runs = 1 + pick(4);
    for $RUN (1 .. $runs + 2) {
        if ($RUN > $runs) { SIM::faultbar(1); $FINAL = 1; }
        if ($RUN <= $runs) { for my $i (0 .. $n - 1) { my $what = $RUN == 1 ? pick(8) == 7 ? 9 : 0 : pick(5);
            if ($what == 0) { ++$ver; put(srcfile($i), "s$i.v$ver"); utime($B + 10 * $RUN, $B + 10 * $RUN, srcfile($i)); SIM::note("src $i $ver"); }
            elsif ($what == 1) { my $d = srcfile($i); next unless -f $d; $d =~ s/src$/out/; if (unlink $d) { SIM::note("rmdest $i"); } }
            elsif ($what == 2) { my $d = srcfile($i); next unless -f $d; utime($B + 10 * $RUN, $B + 10 * $RUN, $d); SIM::note("touch $i"); } } }
        $RUNTIME = $B + 10 * $RUN + (pick(3) == 2 ? 0 : 5);
        my $j = 1 + pick(4); my $noexec = $RUN <= $runs && pick(6) == 5;
        SIM::note("run $RUN $j " . ($noexec ? 1 : 0) . " " . ($RUN - $runs));
        my $st = driver(1 + $RUN, "-j", $j, $noexec ? "-n" : (), pick(2) ? "--noshuffle" : (), "simjob", "--", "tree");
        SIM::note("end $st");
    }
}
# one job per line
sub j01_jobs_main {
    install(); SIM::role(2); my $n = 1 + pick(7); my @cmd; my $def = pick(3) == 2; my $text = $def ? "#define WORD odefined\n" : "";
    my $line = $def ? 1 : 0; my @lines;
    for my $i (1 .. $n) { ++$line; if (pick(6) == 5) { $text .= "# nothing here\n"; next; }
        my $c = "simcmd L$line"; my $o = "o$line" . ("x" x pick(20)); $c .= " p" . pick(5) if pick(2); $c .= " z" . (50, 300, 2000)[pick(3)] if pick(3) == 2; $c .= " o$o";
        if ($def && pick(2)) { $c .= " WORD"; $o .= "defined"; }
        my $e = pick(5); if ($e == 4) { $c .= pick(3) == 2 ? " s" . (9, 11, 15)[pick(3)] : " e" . (1 + pick(3)); } elsif ($e == 3) { $c .= " Oerr"; $o .= "err"; }
        $text .= "$c\n"; push @lines, [$line, $o, $e == 4 ? 1 : 0, $c]; SIM::note("line $line " . ($e == 4 ? 1 : 0) . " $o"); }
    put("jobs", $text); my $maxjobs = pick(4) == 3; my $printcmd = pick(4) == 3; my $runs = 1 + pick(3);
    SIM::note("fmt " . ($printcmd ? 1 : 0));
    for $RUN (1 .. $runs + 2) {
        if ($RUN > $runs) { SIM::faultbar(1); $FINAL = 1; } my $j = 1 + pick(4); SIM::note("jrun $RUN $j " . ($RUN - $runs));
        my $st = driver(1 + $RUN, "-j", $j, pick(2) ? "--noshuffle" : (), "jobsfile", $printcmd ? "printcmd" : (), $maxjobs ? "maxjobs=9" : (), "--", "jobs", "out");
        # what the output directory holds now: number -> contents
        opendir(my $d, "out") or die "out: $!"; my %have; for my $f (sort readdir $d) { next unless $f =~ /^(\d+)$/; my $k = $1 + 0; my $t = slurp("out/$f"); if ($printcmd) { $t =~ s/^command: \(.*\)\n// or SIM::violate("no-command-line: out/$f does not begin with the command"); } $t =~ s/\n/ /g; SIM::note("out $k $t"); }
        SIM::note("jend $st");
    }
}
sim_main();
