package main

import rpmutils "github.com/sassoftware/go-rpmutils"

// rpm's numbers for the exported constants
var constants = map[string][2]int{
	"RPM_NULL_TYPE":           {rpmutils.RPM_NULL_TYPE, 0},
	"RPM_CHAR_TYPE":           {rpmutils.RPM_CHAR_TYPE, 1},
	"RPM_INT8_TYPE":           {rpmutils.RPM_INT8_TYPE, 2},
	"RPM_INT16_TYPE":          {rpmutils.RPM_INT16_TYPE, 3},
	"RPM_INT32_TYPE":          {rpmutils.RPM_INT32_TYPE, 4},
	"RPM_INT64_TYPE":          {rpmutils.RPM_INT64_TYPE, 5},
	"RPM_STRING_TYPE":         {rpmutils.RPM_STRING_TYPE, 6},
	"RPM_BIN_TYPE":            {rpmutils.RPM_BIN_TYPE, 7},
	"RPM_STRING_ARRAY_TYPE":   {rpmutils.RPM_STRING_ARRAY_TYPE, 8},
	"RPM_I18NSTRING_TYPE":     {rpmutils.RPM_I18NSTRING_TYPE, 9},
	"NAME":                    {rpmutils.NAME, 1000},
	"VERSION":                 {rpmutils.VERSION, 1001},
	"RELEASE":                 {rpmutils.RELEASE, 1002},
	"EPOCH":                   {rpmutils.EPOCH, 1003},
	"SUMMARY":                 {rpmutils.SUMMARY, 1004},
	"DESCRIPTION":             {rpmutils.DESCRIPTION, 1005},
	"BUILDTIME":               {rpmutils.BUILDTIME, 1006},
	"BUILDHOST":               {rpmutils.BUILDHOST, 1007},
	"SIZE":                    {rpmutils.SIZE, 1009},
	"DISTRIBUTION":            {rpmutils.DISTRIBUTION, 1010},
	"VENDOR":                  {rpmutils.VENDOR, 1011},
	"GIF":                     {rpmutils.GIF, 1012},
	"XPM":                     {rpmutils.XPM, 1013},
	"LICENSE":                 {rpmutils.LICENSE, 1014},
	"PACKAGER":                {rpmutils.PACKAGER, 1015},
	"GROUP":                   {rpmutils.GROUP, 1016},
	"CHANGELOG":               {rpmutils.CHANGELOG, 1017},
	"SOURCE":                  {rpmutils.SOURCE, 1018},
	"PATCH":                   {rpmutils.PATCH, 1019},
	"URL":                     {rpmutils.URL, 1020},
	"OS":                      {rpmutils.OS, 1021},
	"ARCH":                    {rpmutils.ARCH, 1022},
	"PREIN":                   {rpmutils.PREIN, 1023},
	"POSTIN":                  {rpmutils.POSTIN, 1024},
	"PREUN":                   {rpmutils.PREUN, 1025},
	"POSTUN":                  {rpmutils.POSTUN, 1026},
	"OLDFILENAMES":            {rpmutils.OLDFILENAMES, 1027},
	"FILESIZES":               {rpmutils.FILESIZES, 1028},
	"FILEMODES":               {rpmutils.FILEMODES, 1030},
	"FILERDEVS":               {rpmutils.FILERDEVS, 1033},
	"FILEMTIMES":              {rpmutils.FILEMTIMES, 1034},
	"FILEDIGESTS":             {rpmutils.FILEDIGESTS, 1035},
	"FILELINKTOS":             {rpmutils.FILELINKTOS, 1036},
	"FILEFLAGS":               {rpmutils.FILEFLAGS, 1037},
	"FILEUSERNAME":            {rpmutils.FILEUSERNAME, 1039},
	"FILEGROUPNAME":           {rpmutils.FILEGROUPNAME, 1040},
	"ICON":                    {rpmutils.ICON, 1043},
	"SOURCERPM":               {rpmutils.SOURCERPM, 1044},
	"FILEVERIFYFLAGS":         {rpmutils.FILEVERIFYFLAGS, 1045},
	"ARCHIVESIZE":             {rpmutils.ARCHIVESIZE, 1046},
	"PROVIDENAME":             {rpmutils.PROVIDENAME, 1047},
	"REQUIREFLAGS":            {rpmutils.REQUIREFLAGS, 1048},
	"REQUIRENAME":             {rpmutils.REQUIRENAME, 1049},
	"REQUIREVERSION":          {rpmutils.REQUIREVERSION, 1050},
	"CONFLICTFLAGS":           {rpmutils.CONFLICTFLAGS, 1053},
	"CONFLICTNAME":            {rpmutils.CONFLICTNAME, 1054},
	"CONFLICTVERSION":         {rpmutils.CONFLICTVERSION, 1055},
	"RPMVERSION":              {rpmutils.RPMVERSION, 1064},
	"TRIGGERSCRIPTS":          {rpmutils.TRIGGERSCRIPTS, 1065},
	"TRIGGERNAME":             {rpmutils.TRIGGERNAME, 1066},
	"TRIGGERVERSION":          {rpmutils.TRIGGERVERSION, 1067},
	"TRIGGERFLAGS":            {rpmutils.TRIGGERFLAGS, 1068},
	"TRIGGERINDEX":            {rpmutils.TRIGGERINDEX, 1069},
	"VERIFYSCRIPT":            {rpmutils.VERIFYSCRIPT, 1079},
	"CHANGELOGTIME":           {rpmutils.CHANGELOGTIME, 1080},
	"CHANGELOGNAME":           {rpmutils.CHANGELOGNAME, 1081},
	"CHANGELOGTEXT":           {rpmutils.CHANGELOGTEXT, 1082},
	"PREINPROG":               {rpmutils.PREINPROG, 1085},
	"POSTINPROG":              {rpmutils.POSTINPROG, 1086},
	"PREUNPROG":               {rpmutils.PREUNPROG, 1087},
	"POSTUNPROG":              {rpmutils.POSTUNPROG, 1088},
	"OBSOLETENAME":            {rpmutils.OBSOLETENAME, 1090},
	"FILEDEVICES":             {rpmutils.FILEDEVICES, 1095},
	"FILEINODES":              {rpmutils.FILEINODES, 1096},
	"PROVIDEFLAGS":            {rpmutils.PROVIDEFLAGS, 1112},
	"PROVIDEVERSION":          {rpmutils.PROVIDEVERSION, 1113},
	"OBSOLETEFLAGS":           {rpmutils.OBSOLETEFLAGS, 1114},
	"OBSOLETEVERSION":         {rpmutils.OBSOLETEVERSION, 1115},
	"VERIFYSCRIPTPROG":        {rpmutils.VERIFYSCRIPTPROG, 1091},
	"TRIGGERSCRIPTPROG":       {rpmutils.TRIGGERSCRIPTPROG, 1092},
	"DIRINDEXES":              {rpmutils.DIRINDEXES, 1116},
	"BASENAMES":               {rpmutils.BASENAMES, 1117},
	"DIRNAMES":                {rpmutils.DIRNAMES, 1118},
	"PAYLOADFORMAT":           {rpmutils.PAYLOADFORMAT, 1124},
	"PAYLOADCOMPRESSOR":       {rpmutils.PAYLOADCOMPRESSOR, 1125},
	"FILECOLORS":              {rpmutils.FILECOLORS, 1140},
	"OLDSUGGESTSNAME":         {rpmutils.OLDSUGGESTSNAME, 1156},
	"OLDSUGGESTSVERSION":      {rpmutils.OLDSUGGESTSVERSION, 1157},
	"OLDSUGGESTSFLAGS":        {rpmutils.OLDSUGGESTSFLAGS, 1158},
	"OLDENHANCESNAME":         {rpmutils.OLDENHANCESNAME, 1159},
	"OLDENHANCESVERSION":      {rpmutils.OLDENHANCESVERSION, 1160},
	"OLDENHANCESFLAGS":        {rpmutils.OLDENHANCESFLAGS, 1161},
	"BLINKPKGID":              {rpmutils.BLINKPKGID, 1164},
	"BLINKHDRID":              {rpmutils.BLINKHDRID, 1165},
	"BLINKNEVRA":              {rpmutils.BLINKNEVRA, 1166},
	"FLINKPKGID":              {rpmutils.FLINKPKGID, 1167},
	"FLINKHDRID":              {rpmutils.FLINKHDRID, 1168},
	"FLINKNEVRA":              {rpmutils.FLINKNEVRA, 1169},
	"TRIGGERPREIN":            {rpmutils.TRIGGERPREIN, 1170},
	"LONGFILESIZES":           {rpmutils.LONGFILESIZES, 5008},
	"LONGSIZE":                {rpmutils.LONGSIZE, 5009},
	"FILECAPS":                {rpmutils.FILECAPS, 5010},
	"FILEDIGESTALGO":          {rpmutils.FILEDIGESTALGO, 5011},
	"BUGURL":                  {rpmutils.BUGURL, 5012},
	"VCS":                     {rpmutils.VCS, 5034},
	"RECOMMENDNAME":           {rpmutils.RECOMMENDNAME, 5046},
	"RECOMMENDVERSION":        {rpmutils.RECOMMENDVERSION, 5047},
	"RECOMMENDFLAGS":          {rpmutils.RECOMMENDFLAGS, 5048},
	"SUGGESTNAME":             {rpmutils.SUGGESTNAME, 5049},
	"SUGGESTVERSION":          {rpmutils.SUGGESTVERSION, 5050},
	"SUGGESTFLAGS":            {rpmutils.SUGGESTFLAGS, 5051},
	"SUPPLEMENTNAME":          {rpmutils.SUPPLEMENTNAME, 5052},
	"SUPPLEMENTVERSION":       {rpmutils.SUPPLEMENTVERSION, 5053},
	"SUPPLEMENTFLAGS":         {rpmutils.SUPPLEMENTFLAGS, 5054},
	"ENHANCENAME":             {rpmutils.ENHANCENAME, 5055},
	"ENHANCEVERSION":          {rpmutils.ENHANCEVERSION, 5056},
	"ENHANCEFLAGS":            {rpmutils.ENHANCEFLAGS, 5057},
	"ENCODING":                {rpmutils.ENCODING, 5062},
	"PAYLOADDIGEST":           {rpmutils.PAYLOADDIGEST, 5092},
	"PAYLOADDIGESTALGO":       {rpmutils.PAYLOADDIGESTALGO, 5093},
	"SIG_BASE":                {rpmutils.SIG_BASE, 256},
	"SIG_DSA":                 {rpmutils.SIG_DSA, 267},
	"SIG_RSA":                 {rpmutils.SIG_RSA, 268},
	"SIG_SHA1":                {rpmutils.SIG_SHA1, 269},
	"SIG_LONGSIGSIZE":         {rpmutils.SIG_LONGSIGSIZE, 270},
	"SIG_LONGARCHIVESIZE":     {rpmutils.SIG_LONGARCHIVESIZE, 271},
	"SIG_SHA256":              {rpmutils.SIG_SHA256, 273},
	"SIG_SIZE":                {rpmutils.SIG_SIZE, 17384},
	"SIG_PGP":                 {rpmutils.SIG_PGP, 17386},
	"SIG_MD5":                 {rpmutils.SIG_MD5, 17388},
	"SIG_GPG":                 {rpmutils.SIG_GPG, 17389},
	"SIG_PAYLOADSIZE":         {rpmutils.SIG_PAYLOADSIZE, 17391},
	"SIG_RESERVEDSPACE":       {rpmutils.SIG_RESERVEDSPACE, 17392},
	"RPMFILE_NONE":            {rpmutils.RPMFILE_NONE, 0},
	"RPMFILE_CONFIG":          {rpmutils.RPMFILE_CONFIG, 1},
	"RPMFILE_DOC":             {rpmutils.RPMFILE_DOC, 2},
	"RPMFILE_ICON":            {rpmutils.RPMFILE_ICON, 4},
	"RPMFILE_MISSINGOK":       {rpmutils.RPMFILE_MISSINGOK, 8},
	"RPMFILE_NOREPLACE":       {rpmutils.RPMFILE_NOREPLACE, 16},
	"RPMFILE_SPECFILE":        {rpmutils.RPMFILE_SPECFILE, 32},
	"RPMFILE_GHOST":           {rpmutils.RPMFILE_GHOST, 64},
	"RPMFILE_LICENSE":         {rpmutils.RPMFILE_LICENSE, 128},
	"RPMFILE_README":          {rpmutils.RPMFILE_README, 256},
	"RPMFILE_EXCLUDE":         {rpmutils.RPMFILE_EXCLUDE, 512},
	"RPMFILE_UNPATCHED":       {rpmutils.RPMFILE_UNPATCHED, 1024},
	"RPMFILE_PUBKEY":          {rpmutils.RPMFILE_PUBKEY, 2048},
	"RPMFILE_POLICY":          {rpmutils.RPMFILE_POLICY, 4096},
	"RPMVERIFY_NONE":          {rpmutils.RPMVERIFY_NONE, 0},
	"RPMVERIFY_MD5":           {rpmutils.RPMVERIFY_MD5, 1},
	"RPMVERIFY_FILEDIGEST":    {rpmutils.RPMVERIFY_FILEDIGEST, 1},
	"RPMVERIFY_FILESIZE":      {rpmutils.RPMVERIFY_FILESIZE, 2},
	"RPMVERIFY_LINKTO":        {rpmutils.RPMVERIFY_LINKTO, 4},
	"RPMVERIFY_USER":          {rpmutils.RPMVERIFY_USER, 8},
	"RPMVERIFY_GROUP":         {rpmutils.RPMVERIFY_GROUP, 16},
	"RPMVERIFY_MTIME":         {rpmutils.RPMVERIFY_MTIME, 32},
	"RPMVERIFY_MODE":          {rpmutils.RPMVERIFY_MODE, 64},
	"RPMVERIFY_RDEV":          {rpmutils.RPMVERIFY_RDEV, 128},
	"RPMVERIFY_CAPS":          {rpmutils.RPMVERIFY_CAPS, 256},
	"RPMVERIFY_CONTEXTS":      {rpmutils.RPMVERIFY_CONTEXTS, 32768},
	"RPMSENSE_ANY":            {rpmutils.RPMSENSE_ANY, 0},
	"RPMSENSE_LESS":           {rpmutils.RPMSENSE_LESS, 2},
	"RPMSENSE_GREATER":        {rpmutils.RPMSENSE_GREATER, 4},
	"RPMSENSE_EQUAL":          {rpmutils.RPMSENSE_EQUAL, 8},
	"RPMSENSE_POSTTRANS":      {rpmutils.RPMSENSE_POSTTRANS, 32},
	"RPMSENSE_PREREQ":         {rpmutils.RPMSENSE_PREREQ, 64},
	"RPMSENSE_PRETRANS":       {rpmutils.RPMSENSE_PRETRANS, 128},
	"RPMSENSE_INTERP":         {rpmutils.RPMSENSE_INTERP, 256},
	"RPMSENSE_SCRIPT_PRE":     {rpmutils.RPMSENSE_SCRIPT_PRE, 512},
	"RPMSENSE_SCRIPT_POST":    {rpmutils.RPMSENSE_SCRIPT_POST, 1024},
	"RPMSENSE_TRIGGERIN":      {rpmutils.RPMSENSE_TRIGGERIN, 65536},
	"RPMSENSE_TRIGGERUN":      {rpmutils.RPMSENSE_TRIGGERUN, 131072},
	"RPMSENSE_TRIGGERPOSTUN":  {rpmutils.RPMSENSE_TRIGGERPOSTUN, 262144},
	"RPMSENSE_TRIGGERPREIN":   {rpmutils.RPMSENSE_TRIGGERPREIN, 33554432},
	"RPMTAG_HEADERSIGNATURES": {rpmutils.RPMTAG_HEADERSIGNATURES, 62},
	"RPMTAG_HEADERIMMUTABLE":  {rpmutils.RPMTAG_HEADERIMMUTABLE, 63},
	"RPMTAG_HEADERREGIONS":    {rpmutils.RPMTAG_HEADERREGIONS, 64},
	"HASH_MD5":                {rpmutils.HASH_MD5, 1},
	"HASH_SHA1":               {rpmutils.HASH_SHA1, 2},
	"HASH_RIPEMD160":          {rpmutils.HASH_RIPEMD160, 3},
	"HASH_MD2":                {rpmutils.HASH_MD2, 5},
	"HASH_TIGER192":           {rpmutils.HASH_TIGER192, 6},
	"HASH_HAVAL_5_160":        {rpmutils.HASH_HAVAL_5_160, 7},
	"HASH_SHA256":             {rpmutils.HASH_SHA256, 8},
	"HASH_SHA384":             {rpmutils.HASH_SHA384, 9},
	"HASH_SHA512":             {rpmutils.HASH_SHA512, 10},
	"HASH_SHA224":             {rpmutils.HASH_SHA224, 11},
}
