#!/usr/bin/perl
# Compares refs/*.tab (Unicode 10) with perl's own Unicode database (15.0), over the characters assigned in Unicode 10.
# Prints every difference; refgen/DIFFS.md explains each.
use strict; use warnings; use Unicode::UCD qw(prop_invmap); use FindBin;
my %T; my $id; 
for my $f ("ucd.tab","norm.tab") { open(my $h,"<","$FindBin::Bin/../refs/$f") or die; while(<$h>){ next if /^#/; if(/^T (\d+) \d+ (\S+)/){$id=$1;$T{$id}={};next} chomp; my($v,$r)=split /:/,$_,2; for my $q (split ' ',$r){ my($a,$b)=split /-/,$q; $b//=$a; push @{$T{$id}{r}},[hex $a,hex $b,$v]; } } close $h }
for my $t (values %T) { my $m=''; for my $r (sort { $a->[0]<=>$b->[0] } @{$t->{r}}) { substr($m,4*$r->[0],4*($r->[1]-$r->[0]+1))=pack('N',$r->[2]) x ($r->[1]-$r->[0]+1); } $t->{m}=\$m; delete $t->{r}; }
sub at { return vec(${$T{$_[0]}{m}},$_[1],32) }
sub inv { my($p,$cb,%o)=@_; my($l,$m,$f,$d)=prop_invmap($p); my @v; for my $i (0..$#$l){ my $e=$i<$#$l?$l->[$i+1]-1:0x10FFFF; for my $c ($l->[$i]..$e){ $v[$c]= $f=~/^a/ && $m->[$i]=~/^-?\d+$/ && $m->[$i] ? $m->[$i]+$c-$l->[$i] : $m->[$i]; } } return \@v }
my $gc15=inv('gc');
sub cmpp { my($id,$p,$map)=@_; my $v=inv($p); my($lo,$n)=(-1,0); my($la,$lb); my @d;
  for my $c (0..0x10FFFF){ next if !at(8,$c); next if $c>=0xD800&&$c<=0xDFFF; my $w=$map->($v->[$c],$c); push @d,[$c,at($id,$c),$w] if $w ne at($id,$c); }
  printf "%-28s %d differences", "$id $p", scalar @d; my %g; push @{$g{"$_->[1] -> $_->[2]"}},$_->[0] for @d; print "\n"; for my $k (sort keys %g){ my @c=@{$g{$k}}; print "     $k: ",join(' ',map {sprintf "%04X",$_} @c[0..($#c>11?11:$#c)]),($#c>11?" ... (".scalar(@c).")":""),"\n"; } }
sub ix { my @n=split ' ',shift; my %h; @h{@n}=0..$#n; return \%h }
my $b=sub { $_[0] eq 'Y' || $_[0] eq 'Yes' ? 1:0 };
my $gc=ix("Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn");
cmpp(1,'gc',sub{$gc->{$_[0]}//"?$_[0]"});
my $gcb=ix("Other CR LF Control Extend ZWJ Regional_Indicator Prepend SpacingMark L V T LV LVT EBase EModifier GlueAfterZwj EBaseGAZ");
cmpp(2,'GCB',sub{$gcb->{$_[0]}//"?$_[0]"});
my $wb=ix("Other CR LF Newline Extend ZWJ Regional_Indicator Format Katakana Hebrew_Letter ALetter Single_Quote Double_Quote MidNumLet MidLetter MidNum Numeric ExtendNumLet EBase EModifier GlueAfterZwj EBaseGAZ");
cmpp(3,'WB',sub{ my $x=shift; $x='Other' if $x eq 'WSegSpace' || $x eq 'Perl_Tailored_HSpace'; $wb->{$x}//"?$x"});
my $sb=ix("Other CR LF Extend Sep Format Sp Lower Upper OLetter Numeric ATerm SContinue STerm Close");
cmpp(4,'SB',sub{$sb->{$_[0]}//"?$_[0]"});
my $bc=ix("L R AL EN ES ET AN CS NSM BN B S WS ON LRE LRO RLE RLO PDF LRI RLI FSI PDI");
cmpp(5,'bc',sub{$bc->{$_[0]}//"?$_[0]"});
cmpp(6,'Bidi_M',$b); cmpp(7,'Bidi_C',$b);
cmpp(8,'age',sub{ my $x=shift; $x=~/^V?(\d+)[._](\d+)$/ ? $1*256+$2 : 0 });
# names as perl gives them are underscored aliases
{ open(my $h,"<","$FindBin::Bin/../refs/blocks.txt") or die; my @n=('No_Block',map{chomp;s/[- ]/_/gr}<$h>); my %h; @h{map{lc s/[ _-]//gr}@n}=0..$#n; cmpp(9,'blk',sub{my $x=lc shift; $x=~s/[ _-]//g; $h{$x}//"?$x"}); }
cmpp(10,'ccc',sub{ my $x=shift; return $x if $x=~/^\d+$/; return Unicode::UCD::prop_value_aliases('ccc',$x)//"?$x"; }) ;
my $t=11; cmpp($t++,$_,$b) for qw(Cased CI CWCF CWCM CWL CWT CWU Lower Upper IDC IDS Pat_Syn Pat_WS XIDC XIDS Alpha);
{ my $al=inv('Alpha'); my $nt=inv('nt'); cmpp($t++,'Alpha',sub{ $_[0] eq 'Y' || $gc15->[$_[1]]=~/^N/ ?1:0 }); }
cmpp($t++,'gc',sub{$_[0] eq 'Cc'?1:0}); cmpp($t++,'gc',sub{$_[0]=~/^N/?1:0}); cmpp($t++,'WSpace',$b);
cmpp($t++,$_,$b) for qw(Emoji EComp EMod EBase EPres); cmpp($t++,'gc',sub{$_[0]=~/^M/?1:0});
# decompositions
{ require Unicode::Normalize; my($bad,$badk)=(0,0); for my $c (0..0x10FFFF){ next if !at(8,$c) or ($c>=0xAC00&&$c<=0xD7A3) or ($c>=0xD800&&$c<=0xDFFF); for my $k ([140,\&Unicode::Normalize::NFD],[150,\&Unicode::Normalize::NFKD]) { my $n=at($k->[0],$c); my $mine=join ' ',$n?map{at($k->[0]+$_,$c)}1..$n:$c; my $th=join ' ',unpack 'U*',$k->[1]->(pack 'U',$c); $mine=join ' ',unpack('U*',Unicode::Normalize::reorder(pack 'U*',split / /,$mine)); printf "decomposition %d of %04X: %s vs %s\n",$k->[0],$c,$mine,$th if $mine ne $th; } }
 cmpp(170,'Comp_Ex',$b); 
 open(my $h,"<","$FindBin::Bin/../refs/pairs.txt") or die; my %p; while(<$h>){ my($x,$y,$z)=map{hex}split; $p{"$x $y"}=$z; } my $n=0; for my $k (keys %p){ my($x,$y)=split / /,$k; my $c=Unicode::Normalize::getComposite($x,$y); $n++; print "pair $k\n" if !defined $c || $c!=$p{$k}; }
 my $m=0; for my $c (0..0x10FFFF){ next if !at(8,$c)||($c>=0xAC00&&$c<=0xD7A3); my $l=at(100,$c); next if $l!=2; my($x,$y)=(at(101,$c),at(102,$c)); my $q=Unicode::Normalize::getComposite($x,$y); $m++ if defined $q; print "missing pair $x $y\n" if defined $q && !exists $p{"$x $y"} && at(8,$q); } print "pairs checked $n, decomposable $m\n"; }
cmpp(130,'dt',sub{ my %a=(Can=>'Canonical',Com=>'Compat',Enc=>'Circle',Fin=>'Final',Init=>'Initial',Iso=>'Isolated',Med=>'Medial',Nar=>'Narrow',Nb=>'Nobreak',Sml=>'Small',Sqr=>'Square',Sup=>'Super',Vert=>'Vertical'); my @n=split ' ',"Canonical Compat Circle Final Font Fraction Initial Isolated Medial Narrow Nobreak None Small Square Sub Super Vertical Wide"; my %h; @h{@n}=0..$#n; my $x=$a{$_[0]}//ucfirst lc $_[0]; $h{$x}//"?$x" });
