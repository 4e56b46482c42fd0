#!/bin/bash
# Writes the fixed: lines of known_findings.txt from the fix commits of /repo.
cd /repo
declare -A P=(
["truncate a signal to an integer coefficient"]=C01
["discard the imaginary part of a complex signal"]=C01
["coefficient and state assignment accepts"]=C32
["explicit state longer"]=C02
["reset realizes persistent"]=C04
["GoertzelFilter frequency assignment"]=C16
["single precision complex"]=C36
["initial coefficient realizes"]=C10
["zero imaginary part"]=C09
["phase in double precision"]=C36
["FourierTransform aligns"]=C20
["vanishing window endpoint"]=C20
["response and delay align"]=C07
["PsdTransform aligns"]=C21
["rejects a negative index"]=C21
["one row"]=C19
["accepts a rate of zero"]=C17
["reports the traceback of"]=C28
["ZTransform does not modify"]=C32
["truncate an integer signal"]=C36
["WaveletTransform does not discard"]=C22
["Coiflet 5"]=C22
["Daubechies 11"]=C22
["consumes every incident"]=C18
["restored in a new process"]=C34
["clear preserves order"]=C24
["DiversityModel is serializable"]=C34
["initial replacement"]=C24
["normalized by observation count"]=C25
["predict labels"]=C25
["distant from every class"]=C26
["integral is limited"]=C13
["retains an existing stream"]=C28
["multidimensional signal"]=C35
["overflow an integer window"]=C36
["retain a model if a fit fails"]=C35
["separates distinct poles"]=C23
)
{
echo "# One line per genuine defect.  'fixed:' lines suppress nothing.  A listed finding reads"
echo "# finding: property=<id> case=<workload or *> match=/<regular expression over the violation text>/ <what fails>"
git log --reverse --format='%h|%s' | grep '|fix:' | while IFS='|' read h s; do
 for k in "${!P[@]}"; do case "$s" in *"$k"*) case "$s|$k" in *Wavelet*"|discard the imag"*) continue;; esac; echo "fixed: property=${P[$k]} $h ${s#fix: }"; esac; done
done
} > /verif/known_findings.txt
