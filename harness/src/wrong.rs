//! P04: malformed statements by the clause, each next to the well-formed one it resembles.

use crate::dialects::{bit, fill, portable, Wrap, WRAPS};
use crate::faithful::DIAS;
use crate::gen::*;
use crate::parse::*;
use crate::run::*;

/// Malformed, well-formed, the dialects of the latter, where it may stand.
const WRONG: &[(&str, &str, u8, Wrap)] = &[
    ("INSERT INTO {t} ({i}) SET {i} = {e}", "INSERT INTO {t} SET {i} = {e}", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}, {i}) SET {i} = {e}, {i} = {e}", "INSERT INTO {t} SET {i} = {e}, {i} = {e}", 7, Wrap::Data),
    ("REPLACE INTO {t} ({i}) SET {i} = {e}", "REPLACE INTO {t} SET {i} = {e}", 7, Wrap::Data),
    ("INSERT INTO {t} ({i})", "INSERT INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("INSERT INTO {t}", "INSERT INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES", "INSERT INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}),", "INSERT INTO {t} ({i}) VALUES ({e}), ({e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e},)", "INSERT INTO {t} ({i}) VALUES ({e}, {e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ({e})", "INSERT INTO {t} ({i}) VALUES ({e}), ({e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i},) VALUES ({e})", "INSERT INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES 1, 1", "INSERT INTO {t} ({i}) VALUES ({e}, {e})", 7, Wrap::Data),
    ("INSERT {t} {t} ({i}) VALUES ({e})", "INSERT INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("INSERT INTO {t} SET {i}", "INSERT INTO {t} SET {i} = {e}", 7, Wrap::Data),
    ("INSERT INTO {t} SET {i} =", "INSERT INTO {t} SET {i} = {e}", 7, Wrap::Data),
    ("INSERT INTO {t} SET = {e}", "INSERT INTO {t} SET {i} = {e}", 7, Wrap::Data),
    ("REPLACE DELAYED INTO {t} ({i}) VALUES ({e}) ON DUPLICATE UPDATE {i} = {e}", "REPLACE DELAYED INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("REPLACE {r} HIGH_PRIORITY {r} INTO {t} ({i}) VALUES ({e})", "REPLACE {r} INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("REPLACE {r} IGNORE {r} INTO {t} ({i}) VALUES ({e})", "REPLACE {r} INTO {t} ({i}) VALUES ({e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE", "INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = {e}", 1, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY {i} = {e}", "INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = {e}", 1, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON KEY UPDATE {i} = {e}", "INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = {e}", 1, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT DO", "INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT DO NOTHING", 2, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT NOTHING", "INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT DO NOTHING", 2, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE {i} = {e}", "INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = {e}", 2, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = {e} WHERE", "INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = {e} WHERE {e}", 2, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ON CONSTRAINT DO NOTHING", "INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ON CONSTRAINT {i} DO NOTHING", 2, Wrap::Data),
    ("UPDATE SET {i} = {e}", "UPDATE {t} SET {i} = {e}", 7, Wrap::Data),
    ("UPDATE {t} SET", "UPDATE {t} SET {i} = {e}", 7, Wrap::Data),
    ("UPDATE {t} SET {i} = {e},", "UPDATE {t} SET {i} = {e}, {i} = {e}", 7, Wrap::Data),
    ("UPDATE {t} SET {i} = {e} {i} = {e}", "UPDATE {t} SET {i} = {e}, {i} = {e}", 7, Wrap::Data),
    ("UPDATE {t} SET {i} {e}", "UPDATE {t} SET {i} = {e}", 7, Wrap::Data),
    ("UPDATE {t} SET {i} = {e} WHERE", "UPDATE {t} SET {i} = {e} WHERE {e}", 7, Wrap::Data),
    ("UPDATE {t} SET {i} = {e} WHERE {e} WHERE {e}", "UPDATE {t} SET {i} = {e} WHERE {e}", 7, Wrap::Data),
    ("UPDATE {t}, SET {i} = {e}", "UPDATE {t}, {t} SET {i} = {e}", 7, Wrap::Data),
    ("UPDATE {t} {i} = {e}", "UPDATE {t} SET {i} = {e}", 7, Wrap::Data),
    ("DELETE {t} WHERE {e}", "DELETE FROM {t} WHERE {e}", 7, Wrap::Data),
    ("DELETE FROM", "DELETE FROM {t}", 7, Wrap::Data),
    ("DELETE FROM {t} WHERE", "DELETE FROM {t} WHERE {e}", 7, Wrap::Data),
    ("DELETE FROM {t},", "DELETE FROM {t}", 7, Wrap::Data),
    ("DELETE FROM {t} USING", "DELETE FROM {t} USING {t}", 7, Wrap::Data),
    ("DELETE {t} FROM {t} USING {t}", "DELETE {t} FROM {t}", 7, Wrap::Data),
    ("DELETE {t}, {t} FROM {t} USING {t} WHERE {e}", "DELETE {t}, {t} FROM {t} WHERE {e}", 7, Wrap::Data),
    ("DELETE FROM {t} {e}", "DELETE FROM {t} WHERE {e}", 7, Wrap::Data),
    ("SELECT", "SELECT {e}", 7, Wrap::Sel),
    ("SELECT {e},", "SELECT {e}, {e}", 7, Wrap::Sel),
    ("SELECT , {e}", "SELECT {e}, {e}", 7, Wrap::Sel),
    ("SELECT {e} {e}", "SELECT {e}, {e}", 7, Wrap::Sel),
    ("SELECT a.*.b FROM {t}", "SELECT a.b.* FROM {t}", 7, Wrap::Sel),
    ("SELECT {e}, a.*.* FROM {t}", "SELECT {e}, a.* FROM {t}", 7, Wrap::Sel),
    ("SELECT a.b.*.c.* FROM {t}", "SELECT a.b.c.* FROM {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} WINDOW", "SELECT {e} FROM {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} WHERE {e} WINDOW LIMIT 1", "SELECT {e} FROM {t} WHERE {e} LIMIT 1", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} GROUP BY {e} HAVING {e} WINDOW ORDER BY {e}", "SELECT {e} FROM {t} GROUP BY {e} HAVING {e} ORDER BY {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} WINDOW w", "SELECT {e} FROM {t}", 7, Wrap::Sel),
    ("DO $$ BEGIN SET a = {e}; EXCEPTION END $$", "DO $$ BEGIN SET a = {e}; EXCEPTION WHEN a THEN {e}; END $$", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = {e}; EXCEPTION END", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = {e}; EXCEPTION WHEN a THEN NULL; END", 7, Wrap::No),
    ("SELECT FROM {t}", "SELECT * FROM {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM", "SELECT {e} FROM {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t},", "SELECT {e} FROM {t}, {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} WHERE", "SELECT {e} FROM {t} WHERE {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} WHERE {e} FROM {t}", "SELECT {e} FROM {t} WHERE {e}", 7, Wrap::Sel),
    ("SELECT {e} AS FROM {t}", "SELECT {e} AS {i} FROM {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} AS", "SELECT {e} FROM {t} AS {i}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} AS {i} AS {i}", "SELECT {e} FROM {t} AS {i}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} GROUP {e}", "SELECT {e} FROM {t} GROUP BY {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} GROUP BY", "SELECT {e} FROM {t} GROUP BY {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} GROUP BY {e},", "SELECT {e} FROM {t} GROUP BY {e}, {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} GROUP BY {e} WHERE {e}", "SELECT {e} FROM {t} WHERE {e} GROUP BY {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} HAVING", "SELECT {e} FROM {t} HAVING {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} HAVING {e} GROUP BY {e}", "SELECT {e} FROM {t} GROUP BY {e} HAVING {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER {e}", "SELECT {e} FROM {t} ORDER BY {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER BY", "SELECT {e} FROM {t} ORDER BY {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER BY ASC", "SELECT {e} FROM {t} ORDER BY {e} ASC", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER BY {e} ASC DESC", "SELECT {e} FROM {t} ORDER BY {e} DESC", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER BY {e} DESC,", "SELECT {e} FROM {t} ORDER BY {e} DESC, {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER BY {e} GROUP BY {e}", "SELECT {e} FROM {t} GROUP BY {e} ORDER BY {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LIMIT", "SELECT {e} FROM {t} LIMIT 1", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LIMIT 1,", "SELECT {e} FROM {t} LIMIT 1, 2", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LIMIT 1 OFFSET", "SELECT {e} FROM {t} LIMIT 1 OFFSET 2", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LIMIT 1 ORDER BY {e}", "SELECT {e} FROM {t} ORDER BY {e} LIMIT 1", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LIMIT 1 WHERE {e}", "SELECT {e} FROM {t} WHERE {e} LIMIT 1", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} FOR", "SELECT {e} FROM {t} FOR UPDATE", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} FOR NO UPDATE", "SELECT {e} FROM {t} FOR UPDATE", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} FOR SHARE UPDATE", "SELECT {e} FROM {t} FOR SHARE", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} FOR UPDATE OF", "SELECT {e} FROM {t} FOR UPDATE OF x", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} FOR UPDATE SKIP", "SELECT {e} FROM {t} FOR UPDATE SKIP LOCKED", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} FOR UPDATE NOWAIT SKIP LOCKED", "SELECT {e} FROM {t} FOR UPDATE NOWAIT", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN", "SELECT {e} FROM {t} JOIN {t} ON {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN {t} ON", "SELECT {e} FROM {t} JOIN {t} ON {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN {t} USING", "SELECT {e} FROM {t} JOIN {t} USING ({i})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN {t} USING {i}", "SELECT {e} FROM {t} JOIN {t} USING ({i})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN {t} USING ({i},)", "SELECT {e} FROM {t} JOIN {t} USING ({i}, {i})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LEFT {t} ON {e}", "SELECT {e} FROM {t} LEFT JOIN {t} ON {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LEFT INNER JOIN {t} ON {e}", "SELECT {e} FROM {t} LEFT JOIN {t} ON {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} NATURAL {t}", "SELECT {e} FROM {t} NATURAL JOIN {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} NATURAL CROSS JOIN {t}", "SELECT {e} FROM {t} NATURAL LEFT JOIN {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} INNER {t}", "SELECT {e} FROM {t} INNER JOIN {t} ON {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} CROSS {t}", "SELECT {e} FROM {t} CROSS JOIN {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} OUTER JOIN {t} ON {e}", "SELECT {e} FROM {t} LEFT OUTER JOIN {t} ON {e}", 7, Wrap::Sel),
    ("SELECT {e} FROM ({q} AS {i}", "SELECT {e} FROM ({q}) AS {i}", 7, Wrap::Sel),
    ("SELECT {e} FROM () AS {i}", "SELECT {e} FROM ({q}) AS {i}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} USE ({i})", "SELECT {e} FROM {t} USE INDEX ({i})", 1, Wrap::Sel),
    ("SELECT {e} FROM {t} USE INDEX FOR ({i})", "SELECT {e} FROM {t} USE INDEX FOR JOIN ({i})", 1, Wrap::Sel),
    ("SELECT {e} FROM {t} USE INDEX FOR GROUP ({i})", "SELECT {e} FROM {t} USE INDEX FOR GROUP BY ({i})", 1, Wrap::Sel),
    ("SELECT {e} FROM {t} FORCE INDEX {i}", "SELECT {e} FROM {t} FORCE INDEX ({i})", 1, Wrap::Sel),
    ("SELECT {e} FROM {t} IGNORE INDEX ({i},)", "SELECT {e} FROM {t} IGNORE INDEX ({i})", 1, Wrap::Sel),
    ("({q} UNION {q}", "({q}) UNION {q}", 7, Wrap::No),
    ("{q} UNION", "{q} UNION SELECT {e}", 7, Wrap::No),
    ("{q} UNION ALL DISTINCT SELECT {e}", "{q} UNION ALL SELECT {e}", 7, Wrap::No),
    ("SELECT {e} ALL SELECT {e}", "SELECT {e} UNION ALL SELECT {e}", 7, Wrap::No),
    ("SELECT {e} UNION {t}", "SELECT {e} UNION SELECT {e}", 7, Wrap::No),
    ("SELECT CASE END", "SELECT CASE WHEN {e} THEN {e} END", 7, Wrap::Sel),
    ("SELECT CASE {e} END", "SELECT CASE {e} WHEN {e} THEN {e} END", 7, Wrap::Sel),
    ("SELECT CASE WHEN {e} END", "SELECT CASE WHEN {e} THEN {e} END", 7, Wrap::Sel),
    ("SELECT CASE WHEN {e} THEN {e}", "SELECT CASE WHEN {e} THEN {e} END", 7, Wrap::Sel),
    ("SELECT CASE WHEN {e} THEN {e} ELSE END", "SELECT CASE WHEN {e} THEN {e} ELSE {e} END", 7, Wrap::Sel),
    ("SELECT CASE WHEN {e} THEN {e} ELSE {e} WHEN {e} THEN {e} END", "SELECT CASE WHEN {e} THEN {e} WHEN {e} THEN {e} ELSE {e} END", 7, Wrap::Sel),
    ("SELECT CASE ELSE {e} END", "SELECT CASE WHEN {e} THEN {e} ELSE {e} END", 7, Wrap::Sel),
    ("SELECT CAST({e})", "SELECT CAST({e} AS CHAR)", 7, Wrap::Sel),
    ("SELECT CAST({e} AS)", "SELECT CAST({e} AS CHAR)", 7, Wrap::Sel),
    ("SELECT CAST(AS CHAR)", "SELECT CAST({e} AS CHAR)", 7, Wrap::Sel),
    ("SELECT CAST({e}, CHAR)", "SELECT CAST({e} AS CHAR)", 7, Wrap::Sel),
    ("SELECT COUNT()", "SELECT COUNT(*)", 7, Wrap::Sel),
    ("SELECT COUNT(DISTINCT)", "SELECT COUNT(DISTINCT {e})", 7, Wrap::Sel),
    ("SELECT GROUP_CONCAT()", "SELECT GROUP_CONCAT({e})", 7, Wrap::Sel),
    ("SELECT EXISTS ()", "SELECT EXISTS ({q})", 7, Wrap::Sel),
    ("SELECT EXISTS {q}", "SELECT EXISTS ({q})", 7, Wrap::Sel),
    ("SELECT EXISTS ({e}, {e})", "SELECT EXISTS ({q})", 7, Wrap::Sel),
    ("SELECT {e} IN ()", "SELECT {e} IN ({e})", 7, Wrap::Sel),
    ("SELECT {e} IN 1", "SELECT {e} IN ({e}, {e})", 7, Wrap::Sel),
    ("SELECT {e} IN ({e},)", "SELECT {e} IN ({e}, {e})", 7, Wrap::Sel),
    ("SELECT {e} NOT {e}", "SELECT {e} NOT IN ({e})", 7, Wrap::Sel),
    ("SELECT {e} IS {e}", "SELECT {e} IS NULL", 7, Wrap::Sel),
    ("SELECT {e} IS NOT {e}", "SELECT {e} IS NOT NULL", 7, Wrap::Sel),
    ("SELECT {e} IS NOT", "SELECT {e} IS NOT TRUE", 7, Wrap::Sel),
    ("SELECT {e} LIKE", "SELECT {e} LIKE {e}", 7, Wrap::Sel),
    ("SELECT {e} NOT LIKE", "SELECT {e} NOT LIKE {e}", 7, Wrap::Sel),
    ("SELECT {e} +", "SELECT {e} + {e}", 7, Wrap::Sel),
    ("SELECT * {e}", "SELECT {e} * {e}", 7, Wrap::Sel),
    ("SELECT / {e}", "SELECT {e} / {e}", 7, Wrap::Sel),
    ("SELECT {e} AND", "SELECT {e} AND {e}", 7, Wrap::Sel),
    ("SELECT AND {e}", "SELECT {e} AND {e}", 7, Wrap::Sel),
    ("SELECT OR {e}", "SELECT {e} OR {e}", 7, Wrap::Sel),
    ("SELECT = {e}", "SELECT {e} = {e}", 7, Wrap::Sel),
    ("SELECT {e} = = {e}", "SELECT {e} = {e}", 7, Wrap::Sel),
    ("SELECT {e} > > {e}", "SELECT {e} >> {e}", 7, Wrap::Sel),
    ("SELECT ({e}", "SELECT ({e})", 7, Wrap::No),
    ("SELECT {e})", "SELECT ({e})", 7, Wrap::No),
    ("SELECT ()", "SELECT ({e})", 7, Wrap::Sel),
    ("SELECT ({e}, {e})", "SELECT ({e})", 7, Wrap::Sel),
    ("SELECT f({e}", "SELECT f({e})", 7, Wrap::No),
    ("SELECT f({e},)", "SELECT f({e}, {e})", 7, Wrap::Sel),
    ("SELECT f(, {e})", "SELECT f({e}, {e})", 7, Wrap::Sel),
    ("SELECT f({e} {e})", "SELECT f({e}, {e})", 7, Wrap::Sel),
    ("SELECT a.", "SELECT a.b", 7, Wrap::No),
    ("SELECT a..b", "SELECT a.b", 7, Wrap::Sel),
    ("SELECT .a", "SELECT a.b", 7, Wrap::Sel),
    ("SELECT INTERVAL {s}", "SELECT INTERVAL 1 DAY", 7, Wrap::Sel),
    ("SELECT INTERVAL DAY", "SELECT INTERVAL 1 DAY", 7, Wrap::Sel),
    ("SELECT INTERVAL 1 DAYS", "SELECT INTERVAL 1 DAY", 7, Wrap::Sel),
    ("SELECT INTERVAL 'x' DAY", "SELECT INTERVAL '1' DAY", 7, Wrap::Sel),
    ("SELECT EXTRACT(DAY {e})", "SELECT EXTRACT(DAY FROM {e})", 7, Wrap::Sel),
    ("SELECT EXTRACT(FROM {e})", "SELECT EXTRACT(DAY FROM {e})", 7, Wrap::Sel),
    ("SELECT EXTRACT(x FROM {e})", "SELECT EXTRACT(DAY FROM {e})", 7, Wrap::Sel),
    ("SELECT TIMESTAMPADD(DAY, {e})", "SELECT TIMESTAMPADD(DAY, {e}, {e})", 7, Wrap::Sel),
    ("SELECT TIMESTAMPADD(x, {e}, {e})", "SELECT TIMESTAMPADD(DAY, {e}, {e})", 7, Wrap::Sel),
    ("SELECT TIMESTAMPADD(DAY, {e}, {e}, {e})", "SELECT TIMESTAMPADD(DAY, {e}, {e})", 7, Wrap::Sel),
    ("SELECT TIMESTAMPDIFF(DAY, {e})", "SELECT TIMESTAMPDIFF(DAY, {e}, {e})", 7, Wrap::Sel),
    ("SELECT TIMESTAMPDIFF({e}, {e})", "SELECT TIMESTAMPDIFF(DAY, {e}, {e})", 7, Wrap::Sel),
    ("SELECT 99999999999999999999", "SELECT 9999999999999999999", 7, Wrap::Sel),
    ("SELECT LAG({e}) OVER", "SELECT LAG({e}) OVER (ORDER BY {e})", 7, Wrap::Sel),
    ("SELECT LAG({e}) OVER ()", "SELECT LAG({e}) OVER (ORDER BY {e})", 7, Wrap::Sel),
    ("SELECT LAG({e}) OVER (ORDER BY {e}", "SELECT LAG({e}) OVER (ORDER BY {e})", 7, Wrap::No),
    ("SELECT @@x.y", "SELECT @@GLOBAL.y", 7, Wrap::Sel),
    ("WITH {i} AS {q} {q}", "WITH {i} AS ({q}) {q}", 2, Wrap::No),
    ("WITH {i} ({q}) {q}", "WITH {i} AS ({q}) {q}", 2, Wrap::No),
    ("WITH {i} AS () {q}", "WITH {i} AS ({q}) {q}", 2, Wrap::No),
    ("WITH {i} AS ({q})", "WITH {i} AS ({q}) {q}", 2, Wrap::No),
    ("WITH {i} AS ({q}), {q}", "WITH {i} AS ({q}), {i} AS ({q}) {q}", 2, Wrap::No),
    ("WITH {i} AS (DROP TABLE {t}) {q}", "WITH {i} AS (DELETE FROM {t}) {q}", 2, Wrap::No),
    ("WITH {i} AS (SET {i} = {e}) {q}", "WITH {i} AS (UPDATE {t} SET {i} = {e}) {q}", 2, Wrap::No),
    ("WITH {i} AS (CREATE TABLE {t} (a INT)) {q}", "WITH {i} AS ({q}) {q}", 2, Wrap::No),
    ("WITH {i} AS ({q}) DROP TABLE {t}", "WITH {i} AS ({q}) DELETE FROM {t}", 2, Wrap::No),
    ("WITH {i} AS ({q}) SET {i} = {e}", "WITH {i} AS ({q}) DELETE FROM {t}", 2, Wrap::No),
    ("WITH {i} AS ({q}) WITH {i} AS ({q}) {q}", "WITH {i} AS ({q}), {i} AS ({q}) {q}", 2, Wrap::No),
    ("SET {i}", "SET {i} = {e}", 7, Wrap::No),
    ("SET {i} =", "SET {i} = {e}", 7, Wrap::No),
    ("SET {i} = {e},", "SET {i} = {e}, {i} = {e}", 7, Wrap::No),
    ("SET", "SET {i} = {e}", 7, Wrap::No),
    ("CREATE TABLE {t}", "CREATE TABLE {t} (a INT)", 7, Wrap::No),
    ("CREATE TABLE (a INT)", "CREATE TABLE {t} (a INT)", 7, Wrap::No),
    ("CREATE TABLE {t} (a)", "CREATE TABLE {t} (a INT)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT,)", "CREATE TABLE {t} (a INT, b INT)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT b INT)", "CREATE TABLE {t} (a INT, b INT)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT NOT)", "CREATE TABLE {t} (a INT NOT NULL)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT NOT DEFAULT {e})", "CREATE TABLE {t} (a INT NOT NULL DEFAULT {e})", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT DEFAULT)", "CREATE TABLE {t} (a INT DEFAULT 1)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT COMMENT)", "CREATE TABLE {t} (a INT COMMENT 'x')", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT COMMENT x)", "CREATE TABLE {t} (a INT COMMENT 'x')", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT PRIMARY)", "CREATE TABLE {t} (a INT PRIMARY KEY)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT COLLATE)", "CREATE TABLE {t} (a INT COLLATE x)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT AUTOINCREMENT)", "CREATE TABLE {t} (a INT AUTO_INCREMENT)", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT(x))", "CREATE TABLE {t} (a INT(1))", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT())", "CREATE TABLE {t} (a INT(1))", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT(1, 2))", "CREATE TABLE {t} (a INT(1))", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT(-1))", "CREATE TABLE {t} (a INT(1))", 7, Wrap::No),
    ("CREATE TABLE {t} (a ENUM)", "CREATE TABLE {t} (a ENUM('x'))", 7, Wrap::No),
    ("CREATE TABLE {t} (a ENUM())", "CREATE TABLE {t} (a ENUM('x'))", 7, Wrap::No),
    ("CREATE TABLE {t} (a ENUM(x))", "CREATE TABLE {t} (a ENUM('x'))", 7, Wrap::No),
    ("CREATE TABLE {t} (a ENUM('x' 1))", "CREATE TABLE {t} (a ENUM('x', 'y'))", 7, Wrap::No),
    ("CREATE TABLE {t} (a SET('x', ))", "CREATE TABLE {t} (a SET('x', 'y'))", 7, Wrap::No),
    ("CREATE TABLE {t} (a NUMERIC(1 2))", "CREATE TABLE {t} (a NUMERIC(1, 2))", 7, Wrap::No),
    ("CREATE TABLE {t} (a NUMERIC(1, ))", "CREATE TABLE {t} (a NUMERIC(1, 2))", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT) ENGINE", "CREATE TABLE {t} (a INT) ENGINE=InnoDB", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT) DEFAULT", "CREATE TABLE {t} (a INT) DEFAULT CHARSET=utf8", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT) DEFAULT ENGINE=InnoDB", "CREATE TABLE {t} (a INT) DEFAULT CHARSET=utf8", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT) COMMENT = x", "CREATE TABLE {t} (a INT) COMMENT = 'x'", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT) WHERE {e}", "CREATE TABLE {t} (a INT)", 7, Wrap::No),
    ("CREATE TABLE IF EXISTS {t} (a INT)", "CREATE TABLE IF NOT EXISTS {t} (a INT)", 7, Wrap::No),
    ("CREATE TABLE IF NOT {t} (a INT)", "CREATE TABLE IF NOT EXISTS {t} (a INT)", 7, Wrap::No),
    ("CREATE VIEW {i}", "CREATE VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE VIEW {i} {q}", "CREATE VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE VIEW {i} AS", "CREATE VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE VIEW AS {q}", "CREATE VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE VIEW {i} AS DELETE FROM {t}", "CREATE VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE ALGORITHM=FAST VIEW {i} AS {q}", "CREATE ALGORITHM=MERGE VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE SQL SECURITY ROOT VIEW {i} AS {q}", "CREATE SQL SECURITY DEFINER VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE OR VIEW {i} AS {q}", "CREATE OR REPLACE VIEW {i} AS {q}", 7, Wrap::No),
    ("CREATE INDEX {i} {t} (a)", "CREATE INDEX {i} ON {t} (a)", 7, Wrap::No),
    ("CREATE INDEX {i} ON {t}", "CREATE INDEX {i} ON {t} (a)", 7, Wrap::No),
    ("CREATE INDEX {i} ON {t} ()", "CREATE INDEX {i} ON {t} (a)", 7, Wrap::No),
    ("CREATE INDEX {i} ON {t} (a,)", "CREATE INDEX {i} ON {t} (a, b)", 7, Wrap::No),
    ("CREATE INDEX {i} ON {t} (a b)", "CREATE INDEX {i} ON {t} (a, b)", 7, Wrap::No),
    ("CREATE INDEX {i} ON {t} (a) WHERE", "CREATE INDEX {i} ON {t} (a)", 7, Wrap::No),
    ("CREATE INDEX ON {t}", "CREATE INDEX {i} ON {t} (a)", 7, Wrap::No),
    ("CREATE TRIGGER {i} INSERT ON {t} FOR EACH ROW SET a = 1", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW SET a = 1", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE ON t FOR EACH ROW SET a = 1", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW SET a = 1", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE SELECT ON t FOR EACH ROW SET a = 1", "CREATE TRIGGER {i} BEFORE DELETE ON t FOR EACH ROW SET a = 1", 7, Wrap::No),
    ("CREATE TRIGGER {i} DURING INSERT ON t FOR EACH ROW SET a = 1", "CREATE TRIGGER {i} AFTER INSERT ON t FOR EACH ROW SET a = 1", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE INSERT ON t EACH ROW SET a = 1", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW SET a = 1", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW SET a = 1", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1;", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1; END", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1 SET b = 1; END", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1; SET b = 1; END", 7, Wrap::No),
    ("CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW x", "CREATE TRIGGER {i} BEFORE INSERT ON t FOR EACH ROW SET a = 1", 7, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURN {e}", "CREATE FUNCTION {i} (a INT) RETURNS INT RETURN {e}", 1, Wrap::No),
    ("CREATE FUNCTION {i} RETURNS INT RETURN {e}", "CREATE FUNCTION {i} () RETURNS INT RETURN {e}", 1, Wrap::No),
    ("CREATE FUNCTION {i} (a) RETURNS INT RETURN {e}", "CREATE FUNCTION {i} (a INT) RETURNS INT RETURN {e}", 1, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURNS RETURN {e}", "CREATE FUNCTION {i} (a INT) RETURNS INT RETURN {e}", 1, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURNS INT LANGUAGE", "CREATE FUNCTION {i} (a INT) RETURNS INT LANGUAGE SQL", 2, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURNS INT LANGUAGE x", "CREATE FUNCTION {i} (a INT) RETURNS INT LANGUAGE SQL", 2, Wrap::No),
    ("CREATE TYPE {i} ENUM ('a')", "CREATE TYPE {i} AS ENUM ('a')", 2, Wrap::No),
    ("CREATE TYPE {i} AS ENUM", "CREATE TYPE {i} AS ENUM ('a')", 2, Wrap::No),
    ("CREATE TYPE {i} AS ENUM ('a',)", "CREATE TYPE {i} AS ENUM ('a', 'b')", 2, Wrap::No),
    ("CREATE TYPE {i} AS ENUM (a)", "CREATE TYPE {i} AS ENUM ('a')", 2, Wrap::No),
    ("CREATE {i}", "CREATE TABLE {t} (a INT)", 7, Wrap::No),
    ("CREATE", "CREATE TABLE {t} (a INT)", 7, Wrap::No),
    ("CREATE TEMPORARY {t} (a INT)", "CREATE TEMPORARY TABLE {t} (a INT)", 7, Wrap::No),
    ("ALTER TABLE {t}", "ALTER TABLE {t} DROP COLUMN a", 7, Wrap::No),
    ("ALTER TABLE DROP COLUMN a", "ALTER TABLE {t} DROP COLUMN a", 7, Wrap::No),
    ("ALTER TABLE {t} DROP COLUMN a,", "ALTER TABLE {t} DROP COLUMN a, DROP COLUMN b", 7, Wrap::No),
    ("ALTER TABLE {t} DROP COLUMN a DROP COLUMN b", "ALTER TABLE {t} DROP COLUMN a, DROP COLUMN b", 7, Wrap::No),
    ("ALTER TABLE {t} ADD COLUMN a", "ALTER TABLE {t} ADD COLUMN a INT", 7, Wrap::No),
    ("ALTER TABLE {t} ADD COLUMN INT", "ALTER TABLE {t} ADD COLUMN a INT", 7, Wrap::No),
    ("ALTER TABLE {t} ADD INDEX a", "ALTER TABLE {t} ADD INDEX a (b)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD INDEX ()", "ALTER TABLE {t} ADD INDEX a (b)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD INDEX a (b, )", "ALTER TABLE {t} ADD INDEX a (b, c)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD INDEX a (b) USING", "ALTER TABLE {t} ADD INDEX a (b) USING BTREE", 7, Wrap::No),
    ("ALTER TABLE {t} ADD INDEX a (b) USING TREE", "ALTER TABLE {t} ADD INDEX a (b) USING BTREE", 7, Wrap::No),
    ("ALTER TABLE {t} ADD PRIMARY (a)", "ALTER TABLE {t} ADD PRIMARY KEY (a)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FULLTEXT a (b)", "ALTER TABLE {t} ADD FULLTEXT INDEX a (b)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD SPATIAL a (b)", "ALTER TABLE {t} ADD SPATIAL KEY a (b)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD CONSTRAINT a", "ALTER TABLE {t} ADD CONSTRAINT a PRIMARY KEY (b)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) b (c)", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY a REFERENCES b (c)", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN (a) REFERENCES b (c)", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c)", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE CASCADE", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON INSERT CASCADE", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON UPDATE CASCADE", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE RESTRICT", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE SET", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE SET NULL", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE NO", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE NO ACTION", 7, Wrap::No),
    ("ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE SET x", "ALTER TABLE {t} ADD FOREIGN KEY (a) REFERENCES b (c) ON DELETE SET DEFAULT", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a SET", "ALTER TABLE {t} ALTER COLUMN a SET NOT NULL", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a SET NOT", "ALTER TABLE {t} ALTER COLUMN a SET NOT NULL", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a SET DEFAULT", "ALTER TABLE {t} ALTER COLUMN a SET DEFAULT {e}", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a DROP", "ALTER TABLE {t} ALTER COLUMN a DROP DEFAULT", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a DROP NOT", "ALTER TABLE {t} ALTER COLUMN a DROP NOT NULL", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a", "ALTER TABLE {t} ALTER COLUMN a DROP DEFAULT", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a TYPE", "ALTER TABLE {t} ALTER COLUMN a TYPE INT", 7, Wrap::No),
    ("ALTER TABLE {t} MODIFY a", "ALTER TABLE {t} MODIFY a INT", 7, Wrap::No),
    ("ALTER TABLE {t} MODIFY COLUMN INT", "ALTER TABLE {t} MODIFY COLUMN a INT", 7, Wrap::No),
    ("ALTER TABLE {t} OWNER {i}", "ALTER TABLE {t} OWNER TO {i}", 7, Wrap::No),
    ("ALTER TABLE {t} OWNER TO", "ALTER TABLE {t} OWNER TO {i}", 7, Wrap::No),
    ("ALTER TABLE {t} CHANGE", "ALTER TABLE {t} DROP COLUMN a", 7, Wrap::No),
    ("ALTER {t} DROP COLUMN a", "ALTER TABLE {t} DROP COLUMN a", 7, Wrap::No),
    ("ALTER VIEW {t} DROP COLUMN a", "ALTER TABLE {t} DROP COLUMN a", 7, Wrap::No),
    ("ALTER TABLE {t} ADD CONSTRAINT x COLUMN a INT", "ALTER TABLE {t} ADD COLUMN a INT", 7, Wrap::No),
    ("ALTER TABLE {t} ADD CONSTRAINT COLUMN a INT", "ALTER TABLE {t} ADD COLUMN a INT", 7, Wrap::No),
    ("DROP TABLE", "DROP TABLE {t}", 7, Wrap::No),
    ("DROP TABLE {t},", "DROP TABLE {t}, {t}", 7, Wrap::No),
    ("DROP TABLE {t} {t}", "DROP TABLE {t}, {t}", 7, Wrap::No),
    ("DROP TABLE IF {t}", "DROP TABLE IF EXISTS {t}", 7, Wrap::No),
    ("DROP TABLE IF NOT EXISTS {t}", "DROP TABLE IF EXISTS {t}", 7, Wrap::No),
    ("DROP VIEW {t},", "DROP VIEW {t}, {t}", 7, Wrap::No),
    ("DROP VIEW", "DROP VIEW {t}", 7, Wrap::No),
    ("DROP {t}", "DROP TABLE {t}", 7, Wrap::No),
    ("DROP", "DROP TABLE {t}", 7, Wrap::No),
    ("DROP TEMPORARY INDEX {i} ON {t}", "DROP TEMPORARY TABLE {t}", 1, Wrap::No),
    ("DROP TEMPORARY DATABASE {i}", "DROP TEMPORARY TABLE {t}", 7, Wrap::No),
    ("DROP TEMPORARY FUNCTION {i}", "DROP TEMPORARY TABLE {t}", 7, Wrap::No),
    ("DROP TEMPORARY TRIGGER {i}", "DROP TEMPORARY TABLE {t}", 7, Wrap::No),
    ("DROP INDEX {i} ON", "DROP INDEX {i} ON {t}", 1, Wrap::No),
    ("DROP INDEX ON {t}", "DROP INDEX {i} ON {t}", 1, Wrap::No),
    ("DROP FUNCTION", "DROP FUNCTION {i}", 7, Wrap::No),
    ("DROP FUNCTION {i}, {i}", "DROP FUNCTION {i}", 7, Wrap::No),
    ("DROP PROCEDURE {i} {i}", "DROP PROCEDURE {i}", 7, Wrap::No),
    ("DROP DATABASE {i}, {i}", "DROP DATABASE {i}", 7, Wrap::No),
    ("DROP EVENT", "DROP EVENT {i}", 7, Wrap::No),
    ("DROP SERVER", "DROP SERVER {i}", 7, Wrap::No),
    ("DROP TRIGGER", "DROP TRIGGER {i}", 7, Wrap::No),
    ("TRUNCATE", "TRUNCATE TABLE {t}", 7, Wrap::No),
    ("TRUNCATE TABLE", "TRUNCATE TABLE {t}", 7, Wrap::No),
    ("TRUNCATE TABLE {t}, {t}", "TRUNCATE TABLE {t}", 7, Wrap::No),
    ("RENAME TABLE {t}", "RENAME TABLE {t} TO {t}", 7, Wrap::No),
    ("RENAME TABLE {t} TO", "RENAME TABLE {t} TO {t}", 7, Wrap::No),
    ("RENAME TABLE {t} TO {t},", "RENAME TABLE {t} TO {t}, {t} TO {t}", 7, Wrap::No),
    ("RENAME TABLE {t}, {t} TO {t}", "RENAME TABLE {t} TO {t}, {t} TO {t}", 7, Wrap::No),
    ("IF {e} SET a = 1; END IF", "IF {e} THEN SET a = 1; END IF", 7, Wrap::No),
    ("IF THEN SET a = 1; END IF", "IF {e} THEN SET a = 1; END IF", 7, Wrap::No),
    ("IF {e} THEN SET a = 1; END", "IF {e} THEN SET a = 1; END IF", 7, Wrap::No),
    ("IF {e} THEN SET a = 1;", "IF {e} THEN SET a = 1; END IF", 7, Wrap::No),
    ("IF {e} THEN SET a = 1; ELSEIF THEN SET a = 1; END IF", "IF {e} THEN SET a = 1; ELSEIF {e} THEN SET a = 1; END IF", 7, Wrap::No),
    ("IF {e} THEN SET a = 1; ELSEIF {e} SET a = 1; END IF", "IF {e} THEN SET a = 1; ELSEIF {e} THEN SET a = 1; END IF", 7, Wrap::No),
    ("IF {e} THEN SET a = 1; ELSE SET a = 1; ELSE SET a = 1; END IF", "IF {e} THEN SET a = 1; ELSE SET a = 1; END IF", 7, Wrap::No),
    ("IF {e} THEN SET a = 1; ELSE SET a = 1; ELSEIF {e} THEN SET a = 1; END IF", "IF {e} THEN SET a = 1; ELSEIF {e} THEN SET a = 1; ELSE SET a = 1; END IF", 7, Wrap::No),
    ("CASE WHEN {e} THEN SET a = 1; END IF", "CASE WHEN {e} THEN SET a = 1; END CASE", 7, Wrap::No),
    ("CASE WHEN {e} SET a = 1; END CASE", "CASE WHEN {e} THEN SET a = 1; END CASE", 7, Wrap::No),
    ("CASE {e} THEN SET a = 1; END CASE", "CASE {e} WHEN {e} THEN SET a = 1; END CASE", 7, Wrap::No),
    ("SIGNAL '45000'", "SIGNAL SQLSTATE '45000'", 7, Wrap::No),
    ("SIGNAL SQLSTATE", "SIGNAL SQLSTATE '45000'", 7, Wrap::No),
    ("SIGNAL SQLSTATE '45000' SET", "SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = {e}", 7, Wrap::No),
    ("SIGNAL SQLSTATE '45000' SET {i} = {e}", "SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = {e}", 7, Wrap::No),
    ("SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT {e}", "SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = {e}", 7, Wrap::No),
    ("SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = {e},", "SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = {e}, MYSQL_ERRNO = {e}", 7, Wrap::No),
    ("RETURN", "RETURN {e}", 7, Wrap::No),
    ("START {i}", "START TRANSACTION", 7, Wrap::No),
    ("START", "START TRANSACTION", 7, Wrap::No),
    ("COMMIT {e}", "COMMIT", 7, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURNS INT AS $$ x", "CREATE FUNCTION {i} (a INT) RETURNS INT AS $$ x $$", 2, Wrap::No),
    ("CREATE FUNCTION {i} () RETURNS INT AS $$", "CREATE FUNCTION {i} () RETURNS INT AS $$ $$", 2, Wrap::No),
    ("CREATE FUNCTION {i} () RETURNS INT AS x $$", "CREATE FUNCTION {i} () RETURNS INT AS $$ x $$", 2, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURNS INT AS $$ x LANGUAGE SQL", "CREATE FUNCTION {i} (a INT) RETURNS INT AS $$ x $$ LANGUAGE SQL", 2, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURNS INT $$ x $$", "CREATE FUNCTION {i} (a INT) RETURNS INT AS $$ x $$", 2, Wrap::No),
    ("CREATE FUNCTION {i} (a INT) RETURNS INT AS $$ x $$ $$", "CREATE FUNCTION {i} (a INT) RETURNS INT AS $$ x $$", 2, Wrap::No),
    ("DO $$ SET a = 1; END $$", "DO $$ BEGIN SET a = 1; END $$", 7, Wrap::No),
    ("DO $$ BEGIN SET a = 1; $$", "DO $$ BEGIN SET a = 1; END $$", 7, Wrap::No),
    ("DO $$ BEGIN SET a = 1; END", "DO $$ BEGIN SET a = 1; END $$", 7, Wrap::No),
    ("DO BEGIN SET a = 1; END", "DO $$ BEGIN SET a = 1; END $$", 7, Wrap::No),
    ("COPY {i} FROM STDIN", "COPY {i} (a) FROM STDIN", 7, Wrap::No),
    ("COPY {i} (a) STDIN", "COPY {i} (a) FROM STDIN", 7, Wrap::No),
    ("COPY {i} (a) FROM", "COPY {i} (a) FROM STDIN", 7, Wrap::No),
    ("COPY {i} (a) FROM 'x'", "COPY {i} (a) FROM STDIN", 7, Wrap::No),
    ("COPY {i} (a b) FROM STDIN", "COPY {i} (a, b) FROM STDIN", 7, Wrap::No),
    ("COPY {i} (a,) FROM STDIN", "COPY {i} (a, b) FROM STDIN", 7, Wrap::No),
    // a query as an operand needs brackets
    ("SELECT SELECT {e}", "SELECT (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e}, SELECT {e}", "SELECT {e}, (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e} + SELECT {e}", "SELECT {e} + (SELECT {e})", 7, Wrap::Sel),
    ("SELECT NOT SELECT {e}", "SELECT NOT (SELECT {e})", 7, Wrap::Sel),
    ("SELECT - SELECT {e}", "SELECT - (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e} LIKE SELECT {e}", "SELECT {e} LIKE (SELECT {e})", 7, Wrap::Sel),
    ("SELECT SELECT {e} AS x FROM {t}", "SELECT (SELECT {e}) AS x FROM {t}", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} WHERE SELECT {e}", "SELECT {e} FROM {t} WHERE (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN {t} ON SELECT {e}", "SELECT {e} FROM {t} JOIN {t} ON (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} GROUP BY SELECT {e}", "SELECT {e} FROM {t} GROUP BY (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} HAVING SELECT {e}", "SELECT {e} FROM {t} HAVING (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER BY SELECT {e}", "SELECT {e} FROM {t} ORDER BY (SELECT {e})", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} ORDER BY {e}, SELECT {e} DESC", "SELECT {e} FROM {t} ORDER BY {e}, (SELECT {e}) DESC", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LIMIT SELECT {e}", "SELECT {e} FROM {t} LIMIT 1", 7, Wrap::Sel),
    ("SELECT {e} FROM {t} LIMIT 1 OFFSET SELECT {e}", "SELECT {e} FROM {t} LIMIT 1 OFFSET 1", 7, Wrap::Sel),
    ("SELECT CASE SELECT {e} WHEN {e} THEN {e} END", "SELECT CASE (SELECT {e}) WHEN {e} THEN {e} END", 7, Wrap::Sel),
    ("SELECT CASE WHEN SELECT {e} THEN {e} END", "SELECT CASE WHEN (SELECT {e}) THEN {e} END", 7, Wrap::Sel),
    ("SELECT CASE WHEN {e} THEN SELECT {e} END", "SELECT CASE WHEN {e} THEN (SELECT {e}) END", 7, Wrap::Sel),
    ("SELECT CASE WHEN {e} THEN {e} ELSE SELECT {e} END", "SELECT CASE WHEN {e} THEN {e} ELSE (SELECT {e}) END", 7, Wrap::Sel),
    ("INSERT INTO {t} ({i}) VALUES (SELECT {e})", "INSERT INTO {t} ({i}) VALUES ((SELECT {e}))", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}), ({e}, SELECT {e})", "INSERT INTO {t} ({i}) VALUES ({e}), ({e}, (SELECT {e}))", 7, Wrap::Data),
    ("INSERT INTO {t} SET {i} = SELECT {e}", "INSERT INTO {t} SET {i} = (SELECT {e})", 7, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = SELECT {e}", "INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = (SELECT {e})", 1, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = SELECT {e}", "INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = (SELECT {e})", 2, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = {e} WHERE SELECT {e}", "INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = {e} WHERE (SELECT {e})", 2, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) RETURNING SELECT {e}", "INSERT INTO {t} ({i}) VALUES ({e}) RETURNING (SELECT {e})", 7, Wrap::Data),
    ("UPDATE {t} SET {i} = SELECT {e}", "UPDATE {t} SET {i} = (SELECT {e})", 7, Wrap::Data),
    ("UPDATE {t} SET {i} = {e} WHERE SELECT {e}", "UPDATE {t} SET {i} = {e} WHERE (SELECT {e})", 7, Wrap::Data),
    ("UPDATE {t} SET {i} = {e}, {i} = SELECT {e} WHERE {e}", "UPDATE {t} SET {i} = {e}, {i} = (SELECT {e}) WHERE {e}", 7, Wrap::Data),
    ("DELETE FROM {t} WHERE SELECT {e}", "DELETE FROM {t} WHERE (SELECT {e})", 7, Wrap::Data),
    ("SET {i} = SELECT {e}", "SET {i} = (SELECT {e})", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT DEFAULT SELECT {e})", "CREATE TABLE {t} (a INT DEFAULT (SELECT {e}))", 7, Wrap::No),
    ("CREATE TABLE {t} (a INT GENERATED ALWAYS AS (SELECT {e}))", "CREATE TABLE {t} (a INT GENERATED ALWAYS AS ((SELECT {e})))", 5, Wrap::No),
    ("CREATE INDEX {i} ON {t} (a) WHERE SELECT {e}", "CREATE INDEX {i} ON {t} (a) WHERE (SELECT {e})", 6, Wrap::No),
    ("IF SELECT {e} THEN SET a = 1; END IF", "IF (SELECT {e}) THEN SET a = 1; END IF", 7, Wrap::No),
    ("IF {e} THEN SET a = 1; ELSEIF SELECT {e} THEN SET a = 1; END IF", "IF {e} THEN SET a = 1; ELSEIF (SELECT {e}) THEN SET a = 1; END IF", 7, Wrap::No),
    ("CASE SELECT {e} WHEN {e} THEN SET a = 1; END CASE", "CASE (SELECT {e}) WHEN {e} THEN SET a = 1; END CASE", 7, Wrap::No),
    ("CASE WHEN SELECT {e} THEN SET a = 1; END CASE", "CASE WHEN (SELECT {e}) THEN SET a = 1; END CASE", 7, Wrap::No),
    ("CASE {e} WHEN SELECT {e} THEN SET a = 1; END CASE", "CASE {e} WHEN (SELECT {e}) THEN SET a = 1; END CASE", 7, Wrap::No),
    ("SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = SELECT {e}", "SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = (SELECT {e})", 7, Wrap::No),
    ("RETURN SELECT {e}", "RETURN (SELECT {e})", 7, Wrap::No),
    ("ALTER TABLE {t} ALTER COLUMN a SET DEFAULT SELECT {e}", "ALTER TABLE {t} ALTER COLUMN a SET DEFAULT (SELECT {e})", 7, Wrap::No),
    ("ALTER TABLE {t} ADD COLUMN a INT DEFAULT SELECT {e}", "ALTER TABLE {t} ADD COLUMN a INT DEFAULT (SELECT {e})", 7, Wrap::No),
];
pub fn p04_wrong(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = portable(tape);
    let (c, right, who, wrap) = WRONG[g.raw_choice() as usize % WRONG.len()];
    let ws: Vec<&str> = WRAPS.iter().filter(|w| w.0 == Wrap::No || w.0 == wrap).map(|w| w.1).collect();
    let w = ws[g.raw_choice() as usize % ws.len()];
    let s = w.replace("{}", &fill(&mut g, c));
    let b = w.replace("{}", &fill(&mut g, right));
    rec.case(true, &s, || s.clone());
    for d in DIAS {
        let o = Opts::plain(d);
        if who & bit(d) != 0 {
            rec.extra += 1;
            let q = one(&b, &o)?;
            if let Some(e) = q.first_error() {
                return Err(format!("an error is reported for a well-formed statement: {} at {:?}\n{}", e.msg, e.sp, input(&b, &o)));
            }
        }
        for script in [false, true] {
            rec.extra += 1;
            let s = if script { format!("{s};") } else { s.clone() };
            let p = parse(&s, &o, script)?;
            if p.errors() == 0 {
                return Err(format!("no error is reported for a malformed statement\n{}\n{}", input(&s, &o), p.show()));
            }
        }
    }
    Ok(())
}

/// A misspelt `@@session` or `@@global` is an error wherever a select may stand.
pub fn p04_sysvar(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = portable(tape);
    let right = ["session", "global"][g.raw_choice() as usize % 2];
    let mut w: Vec<char> = right.chars().collect();
    let k = g.raw_choice() as usize % w.len();
    let c = ['x', 's', 'e', 'g', 'l', 'o', '1', '_', 'i', 'a'][g.raw_choice() as usize % 10];
    match g.raw_choice() % 4 {
        0 => w[k] = c,
        1 => {
            w.remove(k);
        }
        2 => w.insert(k, c),
        _ => {
            let l = w.len();
            w.swap(k, (k + 1) % l);
        }
    }
    let mut wrong: String = w.into_iter().collect();
    if wrong.eq_ignore_ascii_case(right) {
        wrong = right[..k].to_string();
    }
    let up = g.raw_choice();
    let case = |s: &str| -> String { s.char_indices().map(|(i, c)| if up >> (i % 16) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect() };
    let (wrong, right) = (case(&wrong), case(right));
    let ws: Vec<&str> = WRAPS.iter().filter(|w| w.0 == Wrap::No || w.0 == Wrap::Sel).map(|w| w.1).collect();
    let w = ws[g.raw_choice() as usize % ws.len()];
    let a = fill(&mut g, "{i}");
    let s = w.replace("{}", &format!("SELECT @@{wrong}.{a}"));
    let b = w.replace("{}", &format!("SELECT @@{right}.{a}"));
    rec.case(true, &s, || s.clone());
    for d in DIAS {
        let o = Opts::plain(d);
        rec.extra += 1;
        let q = one(&b, &o)?;
        if let Some(e) = q.first_error() {
            return Err(format!("an error is reported for a well-formed statement: {} at {:?}\n{}", e.msg, e.sp, input(&b, &o)));
        }
        let p = one(&s, &o)?;
        if p.errors() == 0 {
            return Err(format!("no error is reported for a misspelt system variable scope\n{}\n{}", input(&s, &o), p.show()));
        }
    }
    Ok(())
}

/// The verdict of a recogniser: well-formed, malformed, or not judged (a form it does not know).
#[derive(Clone, Copy, PartialEq, Debug)]
enum Is {
    Right,
    Wrong,
    Open,
}
struct Scan<'a> {
    t: &'a [&'a str],
    i: usize,
    is: Is,
}
impl<'a> Scan<'a> {
    fn at(&self) -> &'a str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn fail(&mut self, is: Is) {
        if self.is == Is::Right {
            self.is = is;
        }
    }
    fn want(&mut self, w: &str) {
        if self.at() == w {
            self.i += 1;
        } else {
            self.fail(Is::Wrong);
        }
    }
    fn skip(&mut self, w: &str) -> bool {
        let y = self.is == Is::Right && self.at() == w;
        self.i += usize::from(y);
        y
    }
    fn name(&mut self) {
        let w = self.at();
        if ["a", "b", "`c d`"].contains(&w) {
            self.i += 1;
        } else if w.starts_with(|c: char| c.is_ascii_alphabetic()) {
            // a keyword may be a name
            self.fail(Is::Open);
        } else {
            self.fail(Is::Wrong);
        }
    }
    fn names(&mut self) {
        self.want("(");
        self.name();
        while self.skip(",") {
            self.name();
        }
        self.want(")");
    }
    fn end(mut self) -> Is {
        if self.at() == ";" {
            // the delimiter, where what follows makes up statements of its own
            self.fail(Is::Open);
        }
        if self.i < self.t.len() {
            self.fail(Is::Wrong);
        }
        self.is
    }
}
/// CONSTRAINT a FOREIGN KEY (a, ..) REFERENCES a (a, ..) [ON DELETE ..] among the columns.
fn foreign(t: &[&str]) -> Is {
    let mut s = Scan { t, i: 0, is: Is::Right };
    if !s.skip("CONSTRAINT") {
        s.fail(Is::Open);
    }
    for w in ["", "FOREIGN", "KEY", "()", "REFERENCES", "", "()"] {
        match w {
            "" => s.name(),
            "()" => s.names(),
            w => s.want(w),
        }
    }
    if s.skip("ON") {
        s.want("DELETE");
        if s.skip("SET") {
            s.want("NULL");
        } else if s.at() == "DELETE" {
            s.fail(Is::Open);
        } else if !s.skip("CASCADE") {
            s.want("RESTRICT");
        }
    }
    if s.at() == "," {
        s.fail(Is::Open);
    }
    s.end()
}
/// EXCEPTION {WHEN a THEN 1;} END behind the statements of a block.
fn handlers(t: &[&str]) -> Is {
    let mut s = Scan { t, i: 0, is: Is::Right };
    if !s.skip("EXCEPTION") {
        s.fail(Is::Open);
    }
    loop {
        s.want("WHEN");
        s.name();
        s.want("THEN");
        if ["NULL", "1", "'x'"].contains(&s.at()) {
            let string = s.at() == "'x'";
            s.i += 1;
            while string && s.skip("'x'") {}
            if ["=", "*", ".", "(", "NOT"].contains(&s.at()) {
                s.fail(Is::Open);
            }
        } else if s.at() == "" || s.at().starts_with([';', ',', ')']) {
            s.fail(Is::Wrong);
        } else {
            s.fail(Is::Open);
        }
        s.want(";");
        if s.at() != "WHEN" || s.is != Is::Right {
            break;
        }
    }
    s.want("END");
    s.end()
}
/// (a [op], ..) of an index.
fn classes(t: &[&str]) -> Is {
    let mut s = Scan { t, i: 0, is: Is::Right };
    if !s.skip("(") {
        s.fail(Is::Open);
    }
    loop {
        s.name();
        let _ = OPS.iter().any(|w| s.skip(w));
        if !s.skip(",") {
            break;
        }
    }
    s.want(")");
    if s.at() == "WHERE" {
        s.fail(Is::Open);
    }
    s.end()
}
const OPS: &[&str] = &["TEXT_PATTERN_OPS", "VARCHAR_PATTERN_OPS", "BPCHAR_PATTERN_OPS", "INT8_OPS", "INT4_OPS", "INT2_OPS"];
/// What the tree does not record in full, edited at random: accepted exactly when well-formed.
pub fn p04_hidden(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = portable(tape);
    let kind = g.raw_choice() % 3;
    let name = |g: &mut Gen| g.pick(&["a", "b", "a", "b"]);
    let list = |g: &mut Gen, v: &mut Vec<&'static str>| {
        v.push("(");
        for i in 0..1 + g.c(3) {
            if i > 0 {
                v.push(",");
            }
            v.push(name(g));
        }
        v.push(")");
    };
    let mut v: Vec<&'static str> = Vec::new();
    match kind {
        0 => {
            v.extend(["CONSTRAINT", name(&mut g), "FOREIGN", "KEY"]);
            list(&mut g, &mut v);
            v.extend(["REFERENCES", name(&mut g)]);
            list(&mut g, &mut v);
            let tail: &[&str] = [&[][..], &["ON", "DELETE", "CASCADE"], &["ON", "DELETE", "RESTRICT"], &["ON", "DELETE", "SET", "NULL"]][g.c(4) as usize];
            v.extend(tail);
        }
        1 => {
            v.push("EXCEPTION");
            for _ in 0..1 + g.c(4) {
                v.extend(["WHEN", name(&mut g), "THEN", g.pick(&["NULL", "1", "'x'"]), ";"]);
            }
            v.push("END");
        }
        _ => {
            v.push("(");
            for i in 0..1 + g.c(3) {
                if i > 0 {
                    v.push(",");
                }
                v.push(name(&mut g));
                if g.p(2, 3) {
                    v.push(g.pick(OPS));
                }
            }
            v.push(")");
        }
    }
    for _ in 0..g.c(3) {
        const W: &[&str] = &[
            ",", ";", "(", ")", "a", "1", "'x'", "=", ".", "*", "ON", "DELETE", "UPDATE", "CASCADE", "SET", "NULL", "NO", "ACTION", "WHEN",
            "THEN", "END", "KEY", "REFERENCES", "IF", "NOT", "INT4_OPS", "ASC", "DESC",
        ];
        let i = g.c(v.len() as u32) as usize;
        let near = v[g.c(v.len() as u32) as usize];
        let w = if g.p(1, 2) { near } else { g.pick(W) };
        match g.c(5) {
            0 => drop(v.remove(i)),
            1 => v.insert(i, v[i]),
            2 => v.insert(i, w),
            3 => v[i] = w,
            _ if i + 1 < v.len() => v.swap(i, i + 1),
            _ => v.push(w),
        }
        if v.is_empty() {
            return Ok(());
        }
    }
    let body = v.join(" ");
    let (s, is, dias) = match kind {
        0 => (format!("CREATE TABLE t (x INT, {body}{})", g.pick(&["", ", y INT"])), foreign(&v), &DIAS[..]),
        1 => (format!("CREATE TRIGGER t AFTER INSERT ON t FOR EACH ROW BEGIN SET a = 1; {body}"), handlers(&v), &DIAS[..]),
        _ => (format!("CREATE INDEX i ON t {body}{}", g.pick(&["", " WHERE a"])), classes(&v), &[Dia::Pg][..]),
    };
    rec.labels.insert(match is {
        Is::Right => "well-formed",
        Is::Wrong => "malformed",
        Is::Open => "not judged",
    });
    if is == Is::Open {
        return Ok(());
    }
    rec.case(true, &s, || s.clone());
    for d in dias {
        let o = Opts::plain(*d);
        for script in [false, true] {
            rec.extra += 1;
            let s = if script { format!("{s};") } else { s.clone() };
            let p = parse(&s, &o, script)?;
            if p.errors() == 0 && is == Is::Wrong {
                return Err(format!("no error is reported for a malformed statement\n{}\n{}", input(&s, &o), p.show()));
            }
            if let (Some(e), Is::Right) = (p.first_error(), is) {
                return Err(format!("an error is reported for a well-formed statement: {} at {:?}\n{}", e.msg, e.sp, input(&s, &o)));
            }
        }
    }
    Ok(())
}
