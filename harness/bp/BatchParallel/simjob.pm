package BatchParallel::simjob;
# builds X.out from X.src in small steps, as a module of a user would
use strict; use vars '@ISA'; @ISA = qw/BatchParallel::common/;
sub file_is_source { my ($this, $prefix, $full, $name) = @_; return -f $name && $name =~ /\.src$/ ? 1 : 0; }
sub destination_file { my ($this, $prefix, $full) = @_; $full =~ s/\.src$/.out/; return $full; }
sub rebuild {
    my ($this, $prefix, $src, $dest) = @_;
    $src =~ m!/s(\d+)\.src$! or die "what is $src"; my $i = $1;
    $main::SUB = 20 + $i; SIM::role(3); SIM::note("job-begin $i");
    my $text = main::slurp($src); my $how = $main::FINAL ? 0 : main::pick(8);
    main::points(main::pick(4)); main::nap((0, 0.1, 0.7, 2)[main::pick(4)]) if main::pick(2);
    my $body = "$text built $main::RUN|end"; my $cut = $how == 6 || $how == 7 ? main::pick(length $body) : length $body;
    open(my $o, '>', $dest) or do { SIM::note("job-noopen $i"); return 0; };
    $o->autoflush(1);
    for (my $k = 0; $k < $cut; $k += 7) { print $o substr($body, $k, $cut - $k < 7 ? $cut - $k : 7); SIM::point() if $k < 30; }
    close($o);
    if ($how == 6) { SIM::note("job-fails $i"); return 0; }
    if ($how == 7) { SIM::note("job-fails $i"); if (main::pick(2)) { die "the job cannot go on\n"; } kill 'SEGV', $$; main::points(2); }
    utime($main::RUNTIME, $main::RUNTIME, $dest) or die "utime";
    SIM::note("job-end $i"); return 1;
}
1;
