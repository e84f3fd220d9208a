fixed('C04', 'report errors that end a list query', 'list and paged queries returned a truncated list without an error when the iteration ended early (connection lost, cancellation)')
fixed('C08', 'honour the transaction options', 'BeginTx ignored the isolation level and read-only option it was given')
fixed('C09', 'stop the keep-alive goroutine', 'Close left the keep-alive goroutine behind for ever; BeginTx or a ping after or during Close dereferenced a nil connection')
fixed('C06', 'changing an ID does not change its copies', 'ID.Set and ID.Reset changed the copies of the ID handed out before')
fixed('C06', 'scanning NULL clears', 'scanning NULL into ID, ID32, Int64, Int32, Float or Bool kept the value of the earlier row')
fixed('C06', 'scanning lists and maps replaces', 'scanning into a used Metadata or KVSet merged the rows; scanning into a used Strings overwrote the list handed out before')
fixed('C06', 'UUID.Scan reports', 'UUID.Scan of a value that is not 16 bytes long succeeded and kept the old value')
fixed('C11', 'a cloned statement continues', 'Expr or SubQuery on a copied statement went to the clause that the pooled object was last used for')
fixed('C11', 'the text cache tells statements apart', 'statements whose buffers have the same contents shared one cached text although the contents belong to other clauses (GroupBy(y).Select(b) and GroupBy(y).GroupBy(b)) or have arguments or not')
fixed('C12', 'the name of query parameters follows', 'Name was computed once and kept after later Set, SetEnum, SetFlags, SetNullColums, SetPage calls')
fixed('C12', 'Reset of query parameters clears', 'Reset kept the null columns')
fixed('C12', 'naming query parameters does not reorder', 'Name sorted the list passed to SetNullColums in place, under other users of that list')
known('C12', 'null-columns-run-together', r'two parameter sets share the name', 'parameter sets whose sorted null-column lists run together to the same text (["ab","c"] and ["a","bc"]) get the same Name; a repair changes the name that the existing test TestParamsWithNuls expects')
fixed('C18', 'schema listings close their rows', 'listings kept the rows of one catalog query open while running the next one: a pool of one connection blocked for ever, a transaction failed with a busy connection; errors that end the rows early were dropped')
fixed('C18', 'listing tables does not panic', 'listing tables panicked on an index over a column that the column query does not show')
fixed('C18', 'listing columns passes schema and table names', 'names with quotes broke the column query or changed its meaning')
fixed('C18', 'SQL Server tables with extended properties', 'a SQL Server table with several extended properties was listed several times')
fixed('C18', 'a SQL Server table is not listed as a view', 'a SQL Server table was listed as a view when another schema has a view of that name')
fixed('C18', 'Postgres foreign keys of equal names', 'Postgres foreign keys with equal names in different tables, or over several columns, were combined with each other')
fixed('C18', 'Postgres indexes of equal names', 'Postgres indexes with equal names in different schemas were attributed to the wrong table')
fixed('C18', 'indexes of partitioned Postgres tables', 'partitioned Postgres tables were listed without their indexes and primary key')
fixed('C18', 'Postgres indexes on expressions only', 'Postgres indexes on expressions only were left out of the listing')
fixed('C19', 'a table listing does not depend on earlier listings', 'keys found by one listing stayed in the object and changed the answer of the next one; dependencies of dependencies were incomplete')
fixed('C20', 'indexes and their columns are listed in a defined order', 'the order of indexes and of their columns was the one the server happened to use')
fixed('C13', 'reading an ID does not write', 'ID.String wrote to memory shared by all copies of the ID (data race)')
fixed('C13', 'TableInfo.AllColumns can be called', 'TableInfo.AllColumns filled a field without synchronisation (data race)')
fixed('C13', 'adding to a list of IDs', 'IDArray.Add and Concat wrote to the spare capacity shared with other copies of the list: two lists made from one base overwrote each other')
fixed('C13', 'LastID can be called beside NextID', 'flake.LastID read the last ID without synchronisation (data race)')
fixed('C14', 'notifications reach their own subscriber', 'subscriptions of one notifier took notifications from one shared channel: each was given those of the others and lost its own')
fixed('C15', 'notifications reach their own subscriber', 'after Close the loops of its subscriptions span for ever; ending a subscription with many notifications pending waited for ever, and Close with it')
fixed('C16', 'a failed migration is not taken for no change', 'a migration that failed with an error whose text contains "no change" was reported as success')
fixed('C16', 'a migration that cannot be read is not applied', 'a migration file that could not be read, or was read in part, was applied as an empty or cut-off script and its version recorded as done')
fixed('C17', 'migration gives its session back', 'a migration kept its session, with the advisory lock if unlocking failed or the lock was granted after the wait timed out: later migrations waited for a lock nobody released')
fixed('C07', 'migration gives its session back', 'every call of Migrate kept one connection of the pool for ever')
known('C07', 'sqlserver-migration-session', r'connections still in use$', 'Migrate on SQL Server keeps one connection of the pool: the SQL Server driver of golang-migrate takes a connection in WithInstance and has no other way in, and its Close closes the pool of the caller too')
known('C07', 'engine-goroutines', r'the migration engine left \d+ goroutines$', 'after a failed migration golang-migrate leaves the goroutines that read the migrations (they hold no connection)')
fixed('C07', 'failed open leaves nothing connected', 'Open left the pool (with its goroutine, and a connection when the ping got that far) when the ping failed; NewProvider when the migration failed')
fixed('C20', 'generated code of a schema does not repeat other schemas', 'with several schemas, the schema file of one repeated the tables of those handled before it, in random order')
fixed('C20', 'type definitions of one generation do not reach the next', 'type definitions of an earlier generation in the same process changed the next one')
fixed('C21', 'failures to write generated code are reported', 'failing writes and closes of generated files, and of standard output, were ignored')
fixed('C21', 'failures to write listings are reported', 'failing writes of listings to standard output were ignored')
fixed('C05', 'cursors keep every digit of an ID', 'DecodeCursor read numbers as floating point: IDs above 2^53 lost their last digits, so paging by an ID cursor repeated or skipped rows')
fixed('C22', 'UUIDs read back from Postgres', 'UUID.Scan took the 36-character text that lib/pq returns for a malformed value, so no UUID stored in Postgres could be read back')
fixed('C22', 'lists of strings read back from columns', 'Strings.Scan refused []byte, which is what lib/pq returns for text and jsonb columns')
fixed('C22', 'JSON keeps every digit of a Float', 'Float was written to JSON with six digits')
fixed('C22', 'JSON that is not a bool', 'Bool.UnmarshalJSON read any text that is not true as false, without an error')
fixed('C22', 'text that is not a time', 'Time.UnmarshalJSON and Scan read malformed text as the zero time, without an error')
fixed('C22', 'numbers beyond 32 bits', 'ID32 and Int32 cut larger numbers to 32 bits, without an error')
fixed('C23', 'quotes around a connection string', 'a quoted connection string in a file that ends in a newline kept its closing quote')
fixed('C23', 'the selected database replaces', 'Open with a database appended it to the string: without other parameters it became part of the host or path, a database already named there won (or made the string invalid), and characters such as & or # changed the other parameters')
fixed('C23', 'ParseConnectionString finds the database', 'ParseConnectionString did not see the database in the path of a Postgres string and the user and password in the parameters of a SQL Server string')
fixed('C23', 'malformed connection strings', 'ParseConnectionString accepted strings without a driver and silently dropped malformed parameters')
fixed('C20', 'models read SQL Server tinyint', 'models read SQL Server tinyint columns (0 to 255) into int8: rows with larger values could not be read')
fixed('C24', 'merging an update without a time', 'an update whose time.Time field is not set cleared the time of the model')
fixed('C05', 'a query without a limit announces no further page', 'a paged query without a limit (or of limit 0) always announced a further page: following them never ended')
fixed('C23', 'Open with a database keeps connection strings', 'Open with a database wrote a string without user and host (they came as parameters) without its //: the driver no longer saw the parameters and connected to its default host')
fixed('C23', 'ParseConnectionString reads the Postgres user', 'ParseConnectionString did not see the Postgres user and password given as parameters')
fixed('C23', 'ParseConnectionString reads the parameters of SQL Server', 'ParseConnectionString knew the parameters of SQL Server in lower case only, while the driver takes them in any case: the database of such a string was empty')
