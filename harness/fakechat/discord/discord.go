// Package discord is a stand-in for the real one.
// A channel reads its events from a file, and records what is sent in another file.
// The process ends with status 0 when all events of all channels were received and handled.
package discord

import (
	"context"
	"encoding/json"
	"errors"
	"os"
	"path/filepath"
	"strconv"
	"sync"

	"github.com/velour/chat"
)

// A Client is a fake client.
type Client struct {
	mu     sync.Mutex
	joined map[string]*Channel
	done   int
}

// A Channel is a fake channel.
type Channel struct {
	cl     *Client
	name   string
	events []Event
	next   int
	out    *os.File
}

// An Event is the encoding of any event.
type Event struct {
	Type          string
	Text, ID      []byte
	From, Who, To *User
	ReplyTo       *Event
}

// A User is the encoding of a user.
type User struct{ Nick, FullName, DisplayName, ID string }

// A Sent is a message that was sent, after the first Received events.
type Sent struct {
	Received int
	Text     []byte
	From     bool
	ReplyTo  bool
}

func fail(err error) {
	os.Stderr.WriteString("FAKECHAT: " + err.Error() + "\n")
	os.Exit(97)
}

func dir() string { return os.Getenv("FAKECHAT_DIR") }

// Dial returns a client.
func Dial(ctx context.Context, token string) (*Client, error) {
	if token != os.Getenv("FAKECHAT_TOKEN") {
		return nil, errors.New("bad token " + token)
	}
	return &Client{joined: make(map[string]*Channel)}, nil
}

// Close closes the client.
func (cl *Client) Close(context.Context) error { return nil }

// Join joins a channel.
func (cl *Client) Join(ctx context.Context, guild, name string) (chat.Channel, error) {
	if guild != os.Getenv("FAKECHAT_SERVER") {
		return nil, errors.New("bad guild " + guild)
	}
	b, err := os.ReadFile(filepath.Join(dir(), name+".in"))
	if err != nil {
		return nil, err
	}
	ch := &Channel{cl: cl, name: name}
	if err := json.Unmarshal(b, &ch.events); err != nil {
		fail(err)
	}
	if ch.out, err = os.OpenFile(filepath.Join(dir(), name+".out"), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o600); err != nil {
		return nil, err // joined twice
	}
	cl.mu.Lock()
	defer cl.mu.Unlock()
	cl.joined[name] = ch
	return ch, nil
}

// Name returns the name.
func (ch *Channel) Name() string { return ch.name }

// ServiceName returns the name of the service.
func (ch *Channel) ServiceName() string { return "Discord fake " + ch.name }

// Receive returns the next event.
func (ch *Channel) Receive(ctx context.Context) (chat.Event, error) {
	if ch.next >= len(ch.events) {
		ch.cl.mu.Lock()
		ch.cl.done++
		if strconv.Itoa(ch.cl.done) == os.Getenv("FAKECHAT_CHANNELS") {
			if err := os.WriteFile(filepath.Join(dir(), "done"), nil, 0o600); err != nil {
				fail(err)
			}
			os.Exit(0)
		}
		ch.cl.mu.Unlock()
		select {} // until the other channels are done
	}
	ev := ch.events[ch.next]
	ch.next++
	switch ev.Type {
	case "message":
		return ch.message(&ev), nil
	case "delete":
		return chat.Delete{ID: chat.MessageID(ev.ID), Channel: ch}, nil
	case "edit":
		return chat.Edit{OrigID: chat.MessageID(ev.ID), New: ch.message(&ev)}, nil
	case "join":
		return chat.Join{Who: *ch.user(ev.Who)}, nil
	case "leave":
		return chat.Leave{Who: *ch.user(ev.Who)}, nil
	case "rename":
		return chat.Rename{From: *ch.user(ev.Who), To: *ch.user(ev.To)}, nil
	}
	fail(errors.New("bad event " + ev.Type))
	return nil, nil
}

func (ch *Channel) message(ev *Event) chat.Message {
	m := chat.Message{ID: chat.MessageID(ev.ID), From: ch.user(ev.From), Text: string(ev.Text)}
	if ev.ReplyTo != nil {
		r := ch.message(ev.ReplyTo)
		m.ReplyTo = &r
	}
	return m
}

func (ch *Channel) user(u *User) *chat.User {
	if u == nil {
		return nil
	}
	return &chat.User{ID: chat.UserID(u.ID), Nick: u.Nick, FullName: u.FullName, DisplayName: u.DisplayName, Channel: ch}
}

// Send records a message.
func (ch *Channel) Send(ctx context.Context, m chat.Message) (chat.Message, error) {
	b, err := json.Marshal(Sent{Received: ch.next, Text: []byte(m.Text), From: m.From != nil, ReplyTo: m.ReplyTo != nil})
	if err != nil {
		fail(err)
	}
	if _, err := ch.out.Write(append(b, '\n')); err != nil {
		fail(err)
	}
	m.ID = chat.MessageID("sent " + strconv.Itoa(ch.next))
	return m, nil
}

// Delete deletes nothing.
func (ch *Channel) Delete(context.Context, chat.Message) error { return nil }

// Edit edits nothing.
func (ch *Channel) Edit(ctx context.Context, m chat.Message) (chat.Message, error) { return m, nil }
