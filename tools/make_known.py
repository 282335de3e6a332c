"""Writes /verif/known-findings.txt: the known findings below and one 'fixed:' line per fix commit in /repo."""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KNOWN = [
    ('P09', 'diffusion-raw', "diffusionGraph(sourceType='raw', the default): the nodes are the records' tags instead of the records (pinned by the repository's own tests)"),
    ('P09', 'diffusion-string', "diffusionGraph: the nodes of a tag that holds one string, e.g. 'SO', are its letters (pinned by the counts in the repository's own tests)"),
    ('P09', 'expanded-order', 'networkCitation and networkCoCitation with expandedCore: an author variant that another record of the same year and journal adds is expanded itself or not, depending on the order of the records'),
    ('P09', 'equal-citations', 'diffusionCount and diffusionGraph: of two source records with the same author, year and journal only one is credited for a citation that fits both'),
    ('P05', 'same-author', 'Medline: the affiliations (AD, AUID) of two authors of one record whose names are equal (AU) are written once for each of them'),
    ('P14', 'maxima', "command line: 'Remove edges above some weight' and 'Remove nodes above some degree' take the maximum for a minimum (pinned by the repository's own tests)"),
    ('P06', 'bib-tail', "writeBib, bibString: a field longer than the maximum string length loses what is left after the last full part (pinned by the sizes in the repository's own tests)"),
]

# fix commits, by the start of their subject
FIXED = [
    ('mdToNb ', 'P18'),
    ('the journal database lost', 'P12'),
    ('a file of another kind with VR', 'P01'), ('an entry that is in a ProQuest', 'P01'), ('graphStats gave numbers', 'P07'), ('dropEdges dropped the wrong', 'P07'), ('repeated elements of an NSF', 'P01'),
    ('leaving the python console', 'P14'), ('the command line failed on a citation', 'P14'), ('the command line asked to overwrite', 'P14'),
    ('gender counts left out', 'P13'),
    ('journal lookups ignored the database', 'P12'), ('what an interrupted edit left behind', 'P12'),
    ('a progress display that cannot', 'P08'),
    ('csvAndLinesReader', 'P01'), ('end csvAndLinesReader', 'P01'), ('use Graph.nodes', 'P09'), ('wosParser hid read errors', 'P01'), ('wosParser dropped malformed', 'P01'),
    ('grant parsers reported', 'P03'), ('ids of CIHR', 'P15'), ('a damaged or unreadable directory cache', 'P03'), ('failing to write the directory cache', 'P03'),
    ('a source file changed', 'P03'), ('GrantCollection counted its own cache', 'P03'), ('what a directory loads to', 'P15'), ('collections made from an iterable', 'P11'),
    ('writeFile used the types', 'P05'), ('Scopus and Medline tags', 'P04'), ('the last Scopus record', 'P01'), ('fields missing from a Scopus', 'P05'),
    ('the last Medline record', 'P01'), ('Medline affiliations', 'P05'), ('set operations dropped', 'P11'), ('mergeGraphs', 'P07'), ('writing edge lists', 'P07'),
    ('graph files lost', 'P07'), ('writeCSV, makeDict', 'P06'), ('localCitesOf', 'P16'), ('localCiteStats', 'P08'), ('adding RecordCollections', 'P11'),
    ('the binary form of a Medline', 'P05'), ('expandedCore failed', 'P09'), ('co-investigator networks counted', 'P09'), ('<= and >= of collections', 'P11'),
    ('networkMultiLevel nodes', 'P09'), ('edgeAttribute of', 'P09'), ('networkTwoMode and', 'P09'), ('weighted diffusion', 'P09'), ('getInvestigators and', 'P09'),
    ('journals added to', 'P12'), ('updatej9DB', 'P12'), ('getj9dict', 'P12'), ('saving the raw', 'P12'), ('an interrupted or failed write', 'P12'),
    ('an interrupted download', 'P13'), ('nameStringGender', 'P13'), ('names are looked up', 'P13'), ('a ProQuest file', 'P01'), ('citations skipped', 'P14'),
    ("the command line's list", 'P14'), ('failing to read the journal', 'P12'), ('a damaged line of a Medline', 'P01'), ('one undecodable byte', 'P01'), ('Scopus fields starting', 'P01'), ('a Medline file that', 'P01'), ('two Medline records', 'P01'), ('a Scopus line with', 'P01'), ('an XML file', 'P01'),
    ('networks of citations by author', 'P09'), ('unweighted citation networks of authors', 'P09'), ('co-authorship networks counted', 'P09'),
    ('the authors of a ProQuest record', 'P16'), ('a ProQuest abstract broke', 'P06'), ('citations unpickled in another', 'P15'), ('rpys failed without', 'P16'),
    ('diffusionCount compared counts', 'P16'), ('diffusion graphs of Scopus', 'P09'), ('citations of a Scopus record', 'P16'),
    ('counts of a citation network depended', 'P09'), ("the type of a multi-mode network's", 'P09'),
    ('rankedSeries in pandas', 'P16'), ('getCitations kept', 'P16'), ('cooccurrenceCounts accepted', 'P16'), ('rankings, time series, burst', 'P06'),
    ('citeFilter skipped', 'P16'), ("diffusionCount's table", 'P16'), ('diffusionAddCountsFromSource emptied', 'P16'), ('Citation.Extra failed', 'P04'), ('files of exports that', 'P02'), ('the progress displays of', 'P08'), ('making a citation network swallowed', 'P02'), ('words of a dropList', 'P06'), ('writeCSV split by long', 'P06'), ('mergeGraphs gave', 'P07'), ('dropNodesByDegree ignored', 'P07'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True, check=True).stdout
    lines = ['# known: property=<id> key=<probe of the check> <what fails>      a genuine defect that is recorded, not repaired',
             '# fixed: property=<id> <commit> <what failed>                        repaired by that commit in /repo; suppresses nothing']
    lines += ['known: property={} key={} {}'.format(*k) for k in KNOWN]
    for row in log.splitlines():
        h, s = row.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        s = s[5:]
        p = [p for start, p in FIXED if s.startswith(start)]
        if not p:
            raise SystemExit('which property: ' + s)
        lines.append('fixed: property={} {} {}'.format(p[0], h, s))
    with open(os.path.join(HERE, 'known-findings.txt'), 'w') as fh:
        fh.write('\n'.join(lines) + '\n')


if __name__ == '__main__':
    main()
