/* containers: hash table, queue, stack, vector, linked list, B-tree (one object per history) */
#include "mdrv.h"
#include <datastructure/hashtable.h>
#include <datastructure/queue.h>
#include <datastructure/stack.h>
#include <datastructure/vector.h>
#include <datastructure/linkedlist.h>
#include <datastructure/btree.h>

static int hexval(int c)
{
	return c <= '9' ? c - '0' : c - 'a' + 10;
}

/* bytes given in hexadecimal */
static size_t unhex(const char *s, unsigned char **out)
{
	size_t n = s[0] == '"' ? 0 : strlen(s) / 2;	/* "" is the empty string */
	*out = malloc(n + 1);
	for (size_t i = 0; i < n; i++)
		(*out)[i] = (unsigned char)(hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1]));
	(*out)[n] = 0;
	return n;
}

static void hex(FILE *o, const void *p, size_t n)
{
	const unsigned char *b = p;
	fputc('"', o);
	for (size_t i = 0; i < n; i++)
		fprintf(o, "%02x", b[i]);
	fputc('"', o);
}

/* in long histories the whole content is shown after every n-th operation only */
static size_t every;
static bool full(size_t i, size_t n)
{
	return every < 2 || i % every == every - 1 || i == n - 1;
}

/* ---- hash table ------------------------------------------------------------------------------------ */
static bool bin_compare(const void *a, size_t al, const void *b, size_t bl)
{
	return al == bl && memcmp(a, b, al) == 0;
}
static size_t const_hash(const void *k, size_t n)
{
	(void)k; (void)n;
	return 7;
}
static size_t len_hash(const void *k, size_t n)
{
	(void)k;
	return n;
}

struct each { FILE *o; bool first, drain, str; };

static void on_each(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	struct each *e = arg;
	if (!e->first) fputc(',', e->o);
	e->first = false;
	fputc('[', e->o);
	/* the terminator of a string key is not part of what the model calls the key */
	hex(e->o, k, kl - (e->str && kl && !((const char*)k)[kl - 1] ? 1 : 0));
	fputc(',', e->o);
	hex(e->o, v, vl);
	fputc(']', e->o);
	if (e->drain) {
		struct hashtable_entry *x = hashtable_remove(h, k, kl);
		if (x)
			hashtable_free_entry(x);
	}
}

static void ht_all(FILE *o, struct hashtable *h, bool drain, bool str)
{
	struct each e = { o, true, drain, str };
	fputc('[', o);
	hashtable_foreach(h, &on_each, &e);
	fputc(']', o);
}

static void drop(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	(void)v; (void)vl; (void)arg;
	hashtable_free_entry(hashtable_remove(h, k, kl));
}

static void ht_history(FILE *o, char *opts, char **lines, size_t n)
{
	struct hashtable h = { 0 };
	bool str = strstr(opts, "str") != NULL;
	hashtable_hash_fn fn = strstr(opts, "const") ? &const_hash : strstr(opts, "len") ? &len_hash : &hashtable_str_hash;

	if (!hashtable_init(&h, str ? &hashtable_str_compare : &bin_compare, fn)) {
		fprintf(o, "{\"ev\":\"E\",\"r\":\"initfail\"}\n");
		return;
	}
	for (size_t i = 0; i < n; i++) {
		char op[16] = "", *a = malloc(strlen(lines[i]) + 1), *b = malloc(strlen(lines[i]) + 1);
		unsigned char *k = NULL, *v = NULL;
		size_t kl, vl;
		a[0] = b[0] = 0;
		sscanf(lines[i], "%15s %s %s", op, a, b);
		/* a string key is passed with its terminator, as the library does */
		kl = unhex(a, &k) + (str ? 1 : 0);
		vl = unhex(b, &v);
		fprintf(o, "{\"ev\":\"E\",\"r\":");
		if (!strcmp(op, "put")) {
			fprintf(o, "\"%s\"", hashtable_put(&h, k, kl, v, vl) ? "ok" : "refused");
		} else if (!strcmp(op, "get")) {
			struct hashtable_value *x = hashtable_get(&h, k, kl);
			if (x) hex(o, x->content, x->len); else fprintf(o, "\"none\"");
		} else if (!strcmp(op, "rem")) {
			struct hashtable_entry *x = hashtable_remove(&h, k, kl);
			if (x) {
				hex(o, x->value.content, x->value.len);
				hashtable_free_entry(x);
			} else
				fprintf(o, "\"none\"");
		} else if (!strcmp(op, "drain")) {
			ht_all(o, &h, true, str);
		} else
			fprintf(o, "\"\"");
		fprintf(o, ",\"full\":%d,\"n\":%zu,\"all\":", full(i, n), h.count);
		if (full(i, n)) ht_all(o, &h, false, str); else fprintf(o, "[]");
		fprintf(o, "}\n");
		fflush(o);
		free(k); free(v); free(a); free(b);
	}
	hashtable_foreach(&h, &drop, NULL);
	hashtable_free(&h);
}

/* ---- queue, stack, vector ---------------------------------------------------------------------------- */
/* the content of an item is preceded by its length so that it can be read back whatever it is */
struct item { size_t len; unsigned char b[]; };
static struct item *mkitem(unsigned char *v, size_t n)
{
	struct item *x = malloc(sizeof(*x) + n);
	x->len = n;
	memcpy(x->b, v, n);
	return x;
}
static void put_item(FILE *o, void *p)
{
	struct item *x = p;
	if (!x) fprintf(o, "\"none\""); else hex(o, x->b, x->len);
}

static void queue_history(FILE *o, char **lines, size_t n)
{
	struct queue q = { 0 };
	if (!queue_init(&q)) return;
	for (size_t i = 0; i < n; i++) {
		char op[16] = "", *a = malloc(strlen(lines[i]) + 1);
		unsigned char *v;
		a[0] = 0;
		sscanf(lines[i], "%15s %s", op, a);
		fprintf(o, "{\"ev\":\"E\",\"r\":");
		if (!strcmp(op, "offer")) {
			size_t vl = unhex(a, &v);
			struct item *x = mkitem(v, vl);
			fprintf(o, "\"%s\"", queue_offer(&q, x, sizeof(*x) + vl) ? "ok" : "refused");
			memset(x, 0x5a, sizeof(*x) + vl);
			free(x); free(v);
		} else if (!strcmp(op, "poll")) {
			void *p = queue_poll(&q);
			put_item(o, p);
			free(p);
		} else if (!strcmp(op, "peek"))
			put_item(o, queue_peek(&q));
		else
			fprintf(o, "\"\"");
		fprintf(o, ",\"full\":%d,\"n\":%zu,\"empty\":%d,\"all\":[", full(i, n), queue_length(&q), queue_empty(&q));
		for (size_t k = 0; full(i, n) && k < queue_length(&q); k++) {
			if (k) fputc(',', o);
			put_item(o, queue_peek_pos(&q, k));
		}
		fprintf(o, "]}\n");
		fflush(o);
		free(a);
	}
	queue_free(&q);
}

static void stack_history(FILE *o, char **lines, size_t n)
{
	struct stack s = { 0 };
	if (!stack_init(&s)) return;
	for (size_t i = 0; i < n; i++) {
		char op[16] = "", *a = malloc(strlen(lines[i]) + 1);
		unsigned char *v;
		a[0] = 0;
		sscanf(lines[i], "%15s %s", op, a);
		fprintf(o, "{\"ev\":\"E\",\"r\":");
		if (!strcmp(op, "push") || !strcmp(op, "upush")) {
			size_t vl = unhex(a, &v);
			struct item *x = mkitem(v, vl);
			if (op[0] == 'p') {
				fprintf(o, "\"%s\"", stack_push(&s, x, sizeof(*x) + vl) ? "ok" : "refused");
				memset(x, 0x5a, sizeof(*x) + vl);
				free(x);
			} else
				fprintf(o, "\"%s\"", stack_unsafe_push(&s, x) ? "ok" : "refused");
			free(v);
		} else if (!strcmp(op, "pop")) {
			void *p = stack_pop(&s);
			put_item(o, p);
			free(p);
		} else if (!strcmp(op, "peek"))
			put_item(o, stack_peek(&s));
		else
			fprintf(o, "\"\"");
		fprintf(o, ",\"full\":%d,\"n\":%d,\"empty\":%d,\"all\":[", full(i, n), s.idx + 1, stack_empty(&s));
		for (int k = 0; full(i, n) && k <= s.idx; k++) {
			if (k) fputc(',', o);
			put_item(o, stack_peek_pos(&s, k));
		}
		fprintf(o, "]}\n");
		fflush(o);
		free(a);
	}
	stack_free(&s);
}

static void vector_history(FILE *o, char **lines, size_t n)
{
	struct vector v = { 0 };
	if (!vector_init(&v)) return;
	for (size_t i = 0; i < n; i++) {
		char op[16] = "", *a = malloc(strlen(lines[i]) + 1);
		unsigned char *b;
		a[0] = 0;
		sscanf(lines[i], "%15s %s", op, a);
		fprintf(o, "{\"ev\":\"E\",\"r\":");
		if (!strcmp(op, "push")) {
			size_t n = unhex(a, &b);
			fprintf(o, "\"%s\"", vector_push(&v, b, n) ? "ok" : "refused");
			free(b);
		} else if (!strcmp(op, "clear")) {
			vector_clear(&v);
			fprintf(o, "\"\"");
		} else
			fprintf(o, "\"\"");
		fprintf(o, ",\"full\":%d,\"n\":%zu,\"all\":", full(i, n), v.len);
		hex(o, v.data, full(i, n) ? v.len : 0);
		fprintf(o, "}\n");
		fflush(o);
		free(a);
	}
	vector_free(&v);
}

/* ---- linked list -------------------------------------------------------------------------------------- */
struct lnode { int id; struct list_head head; };

static struct list_head *nth(struct list_head *h, int k)
{
	struct list_head *p = h;
	while (k-- > 0)
		p = p->next;
	return p;
}

static void list_history(FILE *o, char **lines, size_t n)
{
	struct list_head head, *pos, *tmp;
	list_head_init(&head);
	for (size_t i = 0; i < n; i++) {
		char op[16] = "";
		int a = 0, b = 0;
		sscanf(lines[i], "%15s %d %d", op, &a, &b);
		if (!strcmp(op, "add")) {           /* add <id> <k>: after the k-th node (0 = the head) */
			struct lnode *x = calloc(1, sizeof(*x));
			x->id = a;
			list_head_init(&x->head);
			list_add(&x->head, nth(&head, b));
		} else if (!strcmp(op, "tail")) {   /* add before the head: at the end */
			struct lnode *x = calloc(1, sizeof(*x));
			x->id = a;
			list_head_init(&x->head);
			list_add(&x->head, head.prev);
		} else if (!strcmp(op, "del")) {
			struct list_head *p = nth(&head, a);
			list_del(p);
			free(list_entry(p, struct lnode, head));
		} else if (!strcmp(op, "purge")) {  /* remove every node with that id while iterating */
			list_for_each_safe(pos, tmp, &head) {
				struct lnode *x = list_entry(pos, struct lnode, head);
				if (x->id == a) {
					list_del(pos);
					free(x);
				}
			}
		}
		fprintf(o, "{\"ev\":\"E\",\"r\":\"\",\"full\":%d,\"n\":%zu,\"empty\":%d,\"all\":[", full(i, n), list_length(&head), (int)list_is_empty(&head));
		size_t k = 0;
		if (full(i, n)) list_for_each(pos, &head)
			fprintf(o, "%s\"%d\"", k++ ? "," : "", list_entry(pos, struct lnode, head)->id);
		fprintf(o, "],\"back\":[");
		k = 0;
		for (pos = head.prev; full(i, n) && pos != &head && k < 100000; pos = pos->prev)
			fprintf(o, "%s\"%d\"", k++ ? "," : "", list_entry(pos, struct lnode, head)->id);
		fprintf(o, "]}\n");
		fflush(o);
	}
	list_for_each_safe(pos, tmp, &head) {
		list_del(pos);
		free(list_entry(pos, struct lnode, head));
	}
}

/* ---- B-tree --------------------------------------------------------------------------------------------- */
static void **bt_keys;
static uint64_t *bt_vals;
static size_t bt_nk;
static bool bt_str;

static int key_index(void *k)
{
	for (size_t i = 0; i < bt_nk; i++)
		if (bt_str ? !strcmp(bt_keys[i], k) : *(uint64_t*)bt_keys[i] == *(uint64_t*)k)
			return (int)i + 1;
	return 0;
}

static void bt_node(FILE *o, struct btree_node *x, int depth)
{
	fprintf(o, "{\"k\":[");
	for (int i = 0; i < x->key_count; i++)
		fprintf(o, "%s%d", i ? "," : "", key_index(x->keys[i].key));
	fprintf(o, "],\"v\":[");
	for (int i = 0; i < x->key_count; i++)
		fprintf(o, "%s%d", i ? "," : "", (int)((uint64_t*)x->keys[i].value - bt_vals));
	fprintf(o, "],\"c\":[");
	if (!x->is_leaf && depth < 40)
		for (int i = 0; i <= x->key_count; i++) {
			if (i) fputc(',', o);
			bt_node(o, &x->children[i], depth + 1);
		}
	fprintf(o, "]}");
}

/* O btree <min_degree> ul|str <key> <key> ...   (keys in increasing order; referred to by position) */
static void btree_history(FILE *o, char *opts, char **lines, size_t n)
{
	char *p = strtok(opts, " ");
	int t = atoi(p);
	struct btree_head *h;

	bt_str = !strcmp(strtok(NULL, " "), "str");
	bt_nk = 0;
	bt_keys = NULL;
	while ((p = strtok(NULL, " "))) {
		bt_keys = realloc(bt_keys, (bt_nk + 1) * sizeof(void*));
		if (bt_str)
			bt_keys[bt_nk++] = strdup(p);
		else {
			uint64_t *x = malloc(8);
			*x = strtoull(p, NULL, 10);
			bt_keys[bt_nk++] = x;
		}
	}
	bt_vals = calloc(1000, 8);
	h = btree_init(t, bt_str ? &btree_cmp_str : &btree_cmp_ul);
	for (size_t i = 0; i < n; i++) {
		char op[16] = "";
		int a = 0, b = 0;
		void *r;
		sscanf(lines[i], "%15s %d %d", op, &a, &b);
		fprintf(o, "{\"ev\":\"E\",\"r\":");
		fflush(o);
		if (!strcmp(op, "ins"))
			fprintf(o, "\"%s\"", btree_insert(h, bt_keys[a - 1], &bt_vals[b]) == 0 ? "ok" : "refused");
		else if (!strcmp(op, "upd"))
			fprintf(o, "\"%s\"", btree_update(h, bt_keys[a - 1], &bt_vals[b]) ? "ok" : "refused");
		else if (!strcmp(op, "rem"))
			fprintf(o, "\"%s\"", btree_remove(h, bt_keys[a - 1]) == 0 ? "ok" : "refused");
		else
			fprintf(o, "\"\"");
		fprintf(o, ",\"full\":%d,\"found\":[", full(i, n));
		for (size_t k = 0; full(i, n) && k < bt_nk; k++) {
			/* search with a copy of the key: equality is by content */
			uint64_t u = bt_str ? 0 : *(uint64_t*)bt_keys[k];
			char *s = bt_str ? strdup(bt_keys[k]) : NULL;
			r = btree_lookup(h, bt_str ? (void*)s : (void*)&u);
			free(s);
			fprintf(o, "%s%d", k ? "," : "", r ? (int)((uint64_t*)r - bt_vals) : 0);
		}
		fprintf(o, "],\"tree\":");
		if (h->root && full(i, n)) bt_node(o, h->root, 0); else fprintf(o, "{}");
		fprintf(o, "}\n");
		fflush(o);
	}
	btree_destroy(&h);
}

void ds_history(FILE *o, char **lines, size_t n)
{
	char *opts;

	if (n < 2)
		return;
	fprintf(o, "{\"ev\":\"H\",\"id\":\"%s\"}\n", lines[0] + 2);
	fflush(o);
	opts = lines[1] + 2;
	every = 0;
	if (!strncmp(opts, "every ", 6)) {
		every = strtoul(opts + 6, &opts, 10);
		opts++;
	}
	if (!strncmp(opts, "ht", 2)) ht_history(o, opts + 2, lines + 2, n - 2);
	else if (!strncmp(opts, "queue", 5)) queue_history(o, lines + 2, n - 2);
	else if (!strncmp(opts, "stack", 5)) stack_history(o, lines + 2, n - 2);
	else if (!strncmp(opts, "vector", 6)) vector_history(o, lines + 2, n - 2);
	else if (!strncmp(opts, "list", 4)) list_history(o, lines + 2, n - 2);
	else if (!strncmp(opts, "btree", 5)) btree_history(o, opts + 5, lines + 2, n - 2);
	fprintf(o, "{\"ev\":\"CLOSED\"}\n");
}
