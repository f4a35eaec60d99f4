# common part of the simulated database programs: the real DBI and Lintel::DBI over the stub driver DBD::Sim
use strict; use warnings;
BEGIN { my $d = $0; $d =~ s![^/]*$!!; require "${d}pl.h.pl"; unshift @INC, $d; }
use DBI; use DBD::Sim; use Lintel::DBI;
our $QUICKEXIT = 1;
open(STDERR, '>', '/dev/null'); open(my $so, '>', '/dev/null'); select($so); $| = 1;
sub dbconnect { my (%o) = @_; my $dbh;
    for (1 .. 8) { $dbh = eval { Lintel::DBI->new(dsn => 'DBI:Sim:x', username => 'u', password => 'p', application => 'app', %o) }; last if $dbh && $dbh->{dbh}; undef $dbh; select(undef, undef, undef, 0.05); }
    return $dbh; }
sub clean { my ($e) = @_; return '' unless defined $e; $e = ref($e) ? 'ref:' . ref($e) : "$e"; $e =~ s/ at \S+ line \d+.*//s; $e =~ s/\s+/ /g; return substr($e, 0, 120); }
1;
